// S02: fresh random IV per AES-GCM encryption, stored with its own ciphertext.
import { ts, strip, stripAwait, Interp, EMPTY, addMust, drop, origins, enclosingFn, isFnLike, chain, walkNodes, mkCtx } from '../lib/common.mjs'
import { subtle, isDraw, algProp, algName, encodingThrough, dependsOnParams, ctxCalls } from '../lib/crypto.mjs'

export default async function (w, rep) {
  rep.rule('fresh', 'the IV of every AES-GCM encryption is a 12-byte platform random draw made for that one encryption (not reused across iterations, sites, calls or instances)')
  rep.rule('derived', 'an IV that is not random is derived from the key, the context and the plaintext being encrypted')
  rep.rule('pair', 'an IV stored or returned beside a ciphertext is the IV that produced that ciphertext')

  const I0 = new Interp(w, {})
  const thr = encodingThrough(w)
  const ids = new Map()
  const idOf = n => { let i = ids.get(n); if (!i) { i = ids.size + 1; ids.set(n, i) } return i }
  const ivLeaves = (arg, ctx) => {
    const p = algProp(w, I0, arg, ctx, 'iv')
    if (!p) return null
    return origins(w, p.expr, p.ctx, { stop: e => isDraw(w, e) || !!subtle(w, e), through: thr })
  }
  const isGcm = (call, ctx) => { const n = algName(w, I0, call.arguments[0], ctx); return n === null || n === 'AES-GCM' }
  const encSites = w.calls.filter(c => subtle(w, c) === 'encrypt' || subtle(w, c) === 'wrapKey')
  rep.count('encrypt_call_sites', encSites.length)

  // draw node a filled buffer belongs to
  const bufOf = (call, ctx) => { const r = I0.deref(call.arguments[0], ctx); return r && !r.path.length ? r.expr : null }
  const lenOf = (buf, ctx) => { if (buf && ts.isNewExpression(buf) && buf.arguments?.length) { const v = I0.constEval(buf.arguments[0], ctx); return v && v.vals.length === 1 ? v.vals[0] : null } return null }

  // functions to start from: the encrypting function, or its callers while the IV arrives as a parameter
  const roots = new Set()
  const addRoot = (fn, site, seen) => {
    if (seen.has(fn)) return
    seen.add(fn)
    const needs = site.some(c => {
      const l = ivLeaves(c.arguments[subtle(w, c) === 'wrapKey' ? 3 : 0], mkCtx(fn))
      return (l ?? []).some(x => x.why === 'param' || x.why === 'missing')
    }) || site.paramIv?.has(fn)
    const sites = w.callSitesOf(fn)
    if (needs && sites.length) { for (const s of sites) { const f = enclosingFn(s); if (f) upRoot(f, fn, seen) } } else roots.add(fn)
  }
  const upRoot = (f, callee, seen) => {
    if (seen.has(f)) return
    seen.add(f)
    roots.add(f)
    // if that caller only forwards its own parameter, its callers are roots as well
    for (const s of w.callSitesOf(f)) { const g = enclosingFn(s); if (g && g !== f && f.parameters.some(p => /iv|nonce/i.test(p.name.getText()))) upRoot(g, f, seen) }
  }
  for (const c of encSites) { const f = enclosingFn(c); if (f) addRoot(f, [c], new Set()) }

  const judged = new Map() // call -> {bad, ok, node, msg}
  const client = {
    isEvent: n => ts.isCallExpression(n) && (isDraw(w, n) || subtle(w, n) === 'encrypt'),
    onCall(call, st, ctx, I) {
      if (isDraw(w, call)) {
        const buf = bufOf(call, ctx)
        const f = [`fresh:${idOf(call)}`]
        if (buf) f.push(`fresh:${idOf(buf)}`)
        return { st: addMust(st, ...f), opaque: true }
      }
      if (subtle(w, call) === 'encrypt' && isGcm(call, ctx)) {
        const leaves = ivLeaves(call.arguments[0], ctx)
        const rec = judged.get(call) ?? { ok: 0, bad: [] }
        judged.set(call, rec)
        if (!leaves || !leaves.length) { rec.bad.push({ msg: 'no initialisation vector found in the algorithm argument', ctx }); return { st, opaque: true } }
        for (const l of leaves) {
          const e = strip(l.expr)
          if (isDraw(w, e) || (ts.isNewExpression(e) && /Uint8Array/.test(e.expression.getText()))) {
            const buf = isDraw(w, e) ? bufOf(e, l.ctx) : e
            const len = lenOf(buf, l.ctx)
            if (len !== 12) rec.bad.push({ msg: `the IV drawn at ${w.loc(e)} has ${len === null ? 'no constant' : len + ' bytes as'} length, not 12`, ctx })
            const fact = `fresh:${idOf(e)}`
            if (!st.must.has(fact)) rec.bad.push({ msg: ts.isNewExpression(e) && !st.may.has(fact) ? `the IV buffer from ${w.loc(e)} is never filled with random bytes on this path` : `the IV drawn at ${w.loc(e)} may already have been used for another encryption, or was not drawn for this one`, ctx })
            else rec.ok++
            let facts = [fact]
            if (isDraw(w, e) && buf) facts.push(`fresh:${idOf(buf)}`)
            st = drop(st, ...facts)
          } else if (ts.isCallExpression(e) && subtle(w, e) === 'deriveBits') {
            rec.derived = { e, ctx: l.ctx, encCtx: ctx }
            rec.ok++
          } else if (l.why === 'param' && ctx?.parent === null && w.callSitesOf(ctx.fn).length && roots.size) {
            // analysed from its callers
            if (![...roots].some(r => r !== ctx.fn)) rec.bad.push({ msg: 'the IV is a parameter', ctx })
          } else rec.bad.push({ msg: `the IV comes from ${w.text(e)} (${w.loc(e)}), which is not a random draw`, ctx })
        }
        return { st, opaque: true }
      }
      return undefined
    },
  }
  const I = new Interp(w, client, { maxDepth: 6 })
  for (const r of roots) { I.run(r); rep.functions.add(w.qual(r)) }
  for (const c of encSites) {
    if (subtle(w, c) === 'wrapKey') {
      const n = algName(w, I0, c.arguments[3], null)
      if (n === 'AES-KW') continue
    } else if (!isGcm(c, null)) { rep.count('non_gcm_encrypt_sites'); continue }
    const j = judged.get(c)
    const fn = enclosingFn(c)
    const key = `${w.rel(c)}: AES-GCM encryption in ${fn ? w.fnName(fn) : 'module'}`
    if (!j) { rep.ob('fresh', key, false, { node: c, fn, msg: 'never reached from any analysed entry: its IV cannot be traced' }); continue }
    rep.ob('fresh', key, !j.bad.length, { node: c, fn, msg: j.bad.map(b => b.msg)[0], path: j.bad.length ? chain(w, j.bad[0].ctx) : [] })
    if (j.derived) {
      const top = enclosingFn(c)
      const ctx = mkCtx(top)
      const p = algProp(w, I0, c.arguments[0], ctx, 'iv')
      const dep = dependsOnParams(w, p.expr, ctx)
      const missing = top.parameters.filter(x => !dep.has(x))
      rep.ob('derived', key, missing.length === 0, { node: c, fn: top, msg: `the derived IV does not depend on ${missing.map(m => m.name.getText()).join(', ')}` })
    }
  }
  rep.atLeast('fresh', 8)

  // pairs stored together
  const dataLeaves = (e, ctx) => origins(w, e, ctx, { stop: x => !!subtle(w, x), through: thr, opaqueIface: new Set(['NoydbStore']) })
  const same = (o, u) => {
    const a = strip(o.expr), b = strip(u.expr)
    if (a !== b && !(ts.isIdentifier(a) && ts.isIdentifier(b) && w.sym(a) && w.sym(a) === w.sym(b) && o.path.join() === u.path.join())) return false
    return sameCalls(ctxCalls(o.ctx), ctxCalls(u.ctx))
  }
  const sameCalls = (a, b) => a.length === b.length && a.every((x, i) => x === b[i])
  for (const lit of w.objLits) {
    const props = lit.properties.filter(p => (ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p)) && p.name)
    const ivs = props.filter(p => /^_?iv$|Iv$|IV$/.test(p.name.text ?? ''))
    if (!ivs.length) continue
    if (lit.parent && ts.isCallExpression(lit.parent) && subtle(w, lit.parent)) continue
    const val = p => (ts.isPropertyAssignment(p) ? p.initializer : p.name)
    for (const p of props) {
      if (ivs.includes(p)) continue
      const tstr = w.checker.typeToString(w.checker.getTypeAtLocation(val(p)))
      if (!/string|Uint8Array|ArrayBuffer/.test(tstr)) continue
      const enc = dataLeaves(val(p), null).filter(l => subtle(w, strip(l.expr)) === 'encrypt')
      if (!enc.length) continue
      const fn = enclosingFn(lit)
      const key = `${w.rel(lit)}: ${ivs[0].name.text}/${p.name.text} written by ${fn ? w.fnName(fn) : 'module'}`
      const ivO = origins(w, val(ivs[0]), null, { stop: x => isDraw(w, x) || !!subtle(w, x), through: thr })
        .filter(l => !(ts.isStringLiteral(strip(l.expr)) && strip(l.expr).text === '') && l.why !== 'uninit')
      let bad = null
      for (const l of enc) {
        const call = strip(l.expr)
        const used = ivLeaves(call.arguments[0], l.ctx) ?? []
        for (const u of used) {
          const match = ivO.some(o => same(o, u))
          if (!match) bad = `the IV stored in ${ivs[0].name.text} is not the one used by the encryption at ${w.loc(call)} that produced ${p.name.text}`
        }
      }
      // every stored IV value must belong to one of the ciphertexts
      for (const o of ivO) {
        const ok = enc.some(l => (ivLeaves(strip(l.expr).arguments[0], l.ctx) ?? []).some(u => same(o, u)))
        if (!ok) bad ??= `the stored IV comes from ${w.text(strip(o.expr))}, which encrypted nothing stored here`
      }
      rep.ob('pair', key, !bad, { node: lit, fn, msg: bad })
    }
  }
  rep.atLeast('pair', 20)
  return 'Typestate over every AES-GCM encryption: a random draw makes its IV fresh, an encryption consumes it (interprocedural, loop-aware). Provenance analysis of every object literal that carries an IV beside a ciphertext compares the activation that produced each.'
}
