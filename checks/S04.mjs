// S04: strength of keys derived from human secrets.
import { ts, strip, stripAwait, Interp, origins, enclosingFn, isFnLike } from '../lib/common.mjs'
import { subtle, isDraw, algProp, algName, encodingThrough } from '../lib/crypto.mjs'
import { constVia, callerContexts } from '../lib/slice.mjs'

// documented work factors that differ from the passphrase rule
const FLOOR = { 'on-pin': 100_000, 'on-threat': 200_000, 'as-zip': 1_000 }
const SALT = { hub: 32, 'on-pin': 32 }
const WEAKENING = /^(slice|substring|substr|charAt|at|split|toLowerCase|toUpperCase|toLocaleLowerCase|toLocaleUpperCase|replace|replaceAll|trim|trimStart|trimEnd|subarray|padStart|padEnd|repeat)$/

export default async function (w, rep) {
  rep.rule('work', 'every PBKDF2 derivation uses the documented hash and at least the documented iteration count in every calling context')
  rep.rule('salt', 'every PBKDF2 salt is a random draw of the documented length or the salt stored with the credential')
  rep.rule('enrol', 'a key derived from a secret that is used to wrap or encrypt (enrolment, change of secret) takes a freshly drawn salt')
  rep.rule('kek', 'every key produced by a derivation is 256-bit and not extractable')
  rep.rule('whole', 'the secret enters the derivation whole and unmodified')
  const I = new Interp(w, {})
  const thr = encodingThrough(w)
  const decodeThrough = (e, c) => {
    // a cut of the bytes is not the bytes (archive entries do carry their salt inside the entry)
    if (ts.isCallExpression(e) && w.pkgOf(e) !== 'as-zip') { const cc = strip(e.expression); if (ts.isPropertyAccessExpression(cc) && ['slice', 'subarray'].includes(cc.name.text) && e.arguments.length) return null }
    const t = thr(e, c)
    if (t) return t
    if (ts.isCallExpression(e)) {
      const cc = strip(e.expression)
      if (ts.isPropertyAccessExpression(cc) && cc.name.text === 'encode' && /TextEncoder/.test(w.typeName(cc.expression))) return [e.arguments[0]]
      const tg = w.resolveCall(e, c)
      // hex/base64 decoders of the package itself: string in, bytes out, no crypto
      if (tg.length && e.arguments.length === 1 && /^Uint8Array/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e))) && /string/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e.arguments[0])))) return [e.arguments[0]]
      if (tg.length && e.arguments.length === 1 && /^string$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e))) && /Uint8Array|ArrayBuffer/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e.arguments[0])))) return [e.arguments[0]]
    }
    return null
  }
  const saltLeaves = (site, ctx) => {
    const p = algProp(w, I, site.arguments[0], ctx, 'salt')
    if (!p) return null
    return origins(w, p.expr, p.ctx, { stop: e => isDraw(w, e) || !!subtle(w, e), through: decodeThrough, callers: true })
  }
  const stored = l => {
    const e = strip(l.expr)
    if (l.path.length && /salt$/i.test(l.path[l.path.length - 1])) return true
    if (ts.isPropertyAccessExpression(e) && /salt$/i.test(e.name.text)) return true
    // a value sliced out of the stored ciphertext region (archive entries carry their salt)
    if ((l.why === 'param' || l.why === 'binding') && l.expr) return true
    return false
  }
  const drawLen = (e, ctx) => {
    const b = I.deref(e.arguments[0], ctx)
    if (b.path.length || !ts.isNewExpression(b.expr) || !b.expr.arguments?.length) return null
    const v = constVia(w, I, b.expr.arguments[0], enclosingFn(e))
    return v && Math.min(...v)
  }
  const isPbkdf2 = c => { const n = algName(w, I, c.arguments[0], null); return n === 'PBKDF2' }
  const derivations = w.calls.filter(c => ['deriveKey', 'deriveBits'].includes(subtle(w, c) ?? ''))
  rep.count('derivation_sites', derivations.length)
  for (const c of derivations) {
    const fn = enclosingFn(c)
    const pkg = w.pkgOf(c)
    const key = `${w.rel(c)}: ${subtle(w, c)} in ${fn ? w.fnName(fn) : 'module'}`
    const name = algName(w, I, c.arguments[0], null)
    if (subtle(w, c) === 'deriveKey') {
      const lp = algProp(w, I, c.arguments[2], null, 'length')
      const len = lp && constVia(w, I, lp.expr, fn)
      const ex = constVia(w, I, c.arguments[3], fn)
      rep.ob('kek', key, !!len && len.every(x => x === 256) && !!ex && ex.every(x => x === false), { node: c, fn, msg: `derived key length ${JSON.stringify(len)}, extractable ${JSON.stringify(ex)}` })
    }
    if (name === 'HKDF') continue
    if (name !== 'PBKDF2') { rep.ob('work', key, false, { node: c, fn, msg: `derivation algorithm ${name ?? 'is not a constant'}` }); continue }
    const it = algProp(w, I, c.arguments[0], null, 'iterations')
    const hs = algProp(w, I, c.arguments[0], null, 'hash')
    const iv = it && constVia(w, I, it.expr, fn)
    const hv = hs && constVia(w, I, hs.expr, fn)
    const floor = FLOOR[pkg] ?? 600_000
    const wantHash = pkg === 'as-zip' ? ['SHA-1'] : ['SHA-256', 'SHA-384', 'SHA-512']
    rep.ob('work', key, !!iv && iv.every(x => x >= floor) && !!hv && hv.every(x => wantHash.includes(x)), { node: c, fn, msg: `iterations ${JSON.stringify(iv)} (floor ${floor}), hash ${JSON.stringify(hv)}` })
    if (subtle(w, c) === 'deriveBits') {
      const b = constVia(w, I, c.arguments[2], fn)
      rep.ob('kek', key, !!b && b.every(x => x >= 256), { node: c, fn, msg: `derived bits ${JSON.stringify(b)}` })
    }
    // salt
    const leaves = saltLeaves(c, null) ?? []
    const min = SALT[pkg] ?? 16
    const bad = []
    if (!leaves.length) bad.push('no salt')
    for (const l of leaves) {
      const e = strip(l.expr)
      if (isDraw(w, e)) { const n = drawLen(e, l.ctx); if (!(n >= min)) bad.push(`salt drawn at ${w.loc(e)} has length ${n}, documented ${min}`) } else if (!stored(l)) bad.push(`salt comes from ${w.text(e)} (${w.loc(e)})`)
    }
    rep.ob('salt', key, bad.length === 0, { node: c, fn, msg: bad.join('; ') })
    // secret
    const base = I.deref(c.arguments[1], null)
    const imp = origins(w, c.arguments[1], null, { stop: e => !!subtle(w, e) }).filter(l => subtle(w, strip(l.expr)) === 'importKey')
    for (const l of imp) {
      const raw = origins(w, strip(l.expr).arguments[1], l.ctx, { through: (e, cx) => {
        const t = decodeThrough(e, cx)
        if (t && ts.isCallExpression(e) && ts.isPropertyAccessExpression(strip(e.expression)) && WEAKENING.test(strip(e.expression).name.text)) return null
        return t
      }, callers: true })
      const b2 = []
      for (const r of raw) {
        const e = strip(r.expr)
        if (ts.isCallExpression(e)) { const cc = strip(e.expression); if (ts.isPropertyAccessExpression(cc) && WEAKENING.test(cc.name.text)) b2.push(`the secret is changed by .${cc.name.text}() at ${w.loc(e)}`) }
        if ((ts.isStringLiteral(e) || ts.isNoSubstitutionTemplateLiteral(e)) && w.pkgOf(e) === pkg) b2.push(`a constant secret at ${w.loc(e)}`)
      }
      rep.ob('whole', key, b2.length === 0 && raw.length > 0, { node: c, fn, msg: b2.join('; ') || 'secret not found' })
      const ex = I.constEval(strip(l.expr).arguments[3], l.ctx)
      rep.ob('kek', `${key} (base key)`, !!ex && ex.vals.every(x => x === false), { node: strip(l.expr), fn, msg: 'base key material is extractable' })
    }
    if (!imp.length) rep.ob('whole', key, false, { node: c, fn, msg: 'base key is not an imported secret' })
  }
  // enrolment: wrapping/encrypting under a derived key
  for (const c of w.calls) {
    const m = subtle(w, c)
    if (m !== 'wrapKey' && m !== 'encrypt') continue
    const keyArg = c.arguments[m === 'wrapKey' ? 2 : 1]
    const fn = enclosingFn(c)
    const leaves = origins(w, keyArg, null, { stop: (e, cx, p) => !!subtle(w, e) || /^(kek|newKek)$/.test(p[0] ?? '') && false || p[0] === 'kek' || (ts.isPropertyAccessExpression(e) && e.name.text === 'kek'), callers: true })
    for (const l of leaves) {
      const d = strip(l.expr)
      if (!['deriveKey', 'deriveBits'].includes(subtle(w, d) ?? '') || algName(w, I, d.arguments[0], l.ctx) !== 'PBKDF2') continue
      const sl = saltLeaves(d, l.ctx) ?? []
      const bad = sl.filter(x => !isDraw(w, strip(x.expr)) && !(x.why === 'param'))
      // a salt drawn once and used for every round of a loop serves several secrets
      const nodesOf = (e, cx) => { const r = [e]; for (; cx; cx = cx.parent) if (cx.call) r.push(cx.call); return r }
      const outer = n => { let f = null; for (let p = n; p; p = p.parent) if (isFnLike(p)) f = p; return f }
      const repeats = p => ts.isForStatement(p) || ts.isForOfStatement(p) || ts.isForInStatement(p) || ts.isWhileStatement(p) || ts.isDoStatement(p) ? p.statement : isFnLike(p) && ts.isCallExpression(p.parent) && p.parent.arguments.includes(p) && (/\.(map|forEach|flatMap|reduce)$/.test(p.parent.expression.getText()) || /^Array\.from$/.test(p.parent.expression.getText())) ? p : null
      for (const x of sl) for (const e of nodesOf(strip(x.expr), x.ctx)) for (const n of nodesOf(d, l.ctx)) {
        if (!outer(e) || outer(e) !== outer(n)) continue
        for (let p = n; p && p !== outer(n); p = p.parent) { const b = repeats(p); if (b && n.pos >= b.pos && n.end <= b.end && !(e.pos >= b.pos && e.end <= b.end)) bad.push({ ...x, once: true }) }
      }
      const top = (function t(cx) { while (cx?.parent) cx = cx.parent; return cx })(l.ctx)
      const at = top?.call ?? d
      const f2 = enclosingFn(at)
      rep.ob('enrol', `${w.rel(at)}: key used for ${m} derived in ${f2 ? w.fnName(f2) : 'module'}`, bad.length === 0 && sl.length > 0, { node: at, fn: f2, msg: bad.some(b => b.once) ? 'one salt is drawn outside the loop that enrols several secrets' : bad.length ? `the new secret is derived with the existing salt ${w.text(strip(bad[0].expr))} instead of a fresh one` : 'no salt' })
    }
  }
  rep.atLeast('work', 5)
  rep.atLeast('salt', 5)
  rep.atLeast('enrol', 4)
  return 'Enumeration of every SubtleCrypto derivation; conditional constant propagation of algorithm parameters through all callers; backward provenance of salts, secrets and wrapping keys.'
}
