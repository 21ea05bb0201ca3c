// I05: invalid records are never stored and never returned as valid.
import { ts, strip, stripAwait, origins, storeOp, publicApi, enclosingFn, addMust, addMay, drop, clearFacts, chain, mkCtx, thrownClass, isAsync, K } from '../lib/common.mjs'
import { subtle, encodingThrough } from '../lib/crypto.mjs'
import { recordOps, recordRun, allOn, undoing, SOME } from '../lib/records.mjs'

const FIELDS = 'I18nTextDescriptor', REFS = 'RefDescriptor'
// reads documented to return old snapshots or raw state as they were written
const SNAPSHOT = /^Collection\.(history|getVersion|diff|revert|getRaw|listVersions|dump.*)$/

export default async function (w, rep) {
  rep.rule('schema', 'when the schema rejects the incoming record, no store write of it is reachable')
  rep.rule('value', 'with a schema, what is encrypted and stored derives from the validator\'s output, never from the raw input')
  rep.rule('fields', 'a record whose multilingual field breaks the declared rule is refused before any store write')
  rep.rule('refs', 'a record with a strict reference to a missing or malformed target is refused before any store write')
  rep.rule('accept', 'a valid record does reach the store through the same operation')
  rep.rule('through', 'every other operation stores new record content only through an operation decided above')
  rep.rule('read', 'when the schema rejects the stored record, no read returns it')

  const ops = recordOps(w)
  const rel = {}
  const enc = encodingThrough(w)
  const hasT = (fn, p) => { const t = p.type?.getText() ?? ''; return t === 'T' || t === 'unknown' }
  const isT = fn => fn.parameters.find(p => hasT(fn, p))
  const direct = ops.filter(o => o.cls === 'Collection' && isT(o.fn))
  const typeText = e => w.checker.typeToString(w.checker.getNonNullableType(w.checker.getTypeAtLocation(e)))
  const isIssues = (o, n) => n === 'issues' && /StandardSchemaV1SyncResult|issues\??: (undefined|readonly StandardSchemaV1Issue)/.test(w.checker.typeToString(w.checker.getTypeAtLocation(o), undefined, ts.TypeFormatFlags.NoTruncation))
  const isValidate = e => ts.isCallExpression(e) && ts.isPropertyAccessExpression(strip(e.expression)) && strip(e.expression).name.text === 'validate' && /~standard/.test(ownerText(strip(e.expression).expression))
  const ownerText = x => { x = strip(x); if (ts.isElementAccessExpression(x)) return x.argumentExpression.getText(); const d = w.sym(x)?.valueDeclaration; if (d && ts.isVariableDeclaration(d) && d.initializer) return d.initializer.getText(); if (d && ts.isBindingElement(d)) return (d.propertyName ?? d.name).getText(); return x.getText() }
  // a value read back from the store
  const stored = (e, ctx) => !origins(w, e, ctx, { stop: x => ts.isCallExpression(x) && (storeOp(w, x) || /^JSON\.parse$/.test(strip(x.expression).getText())) }).some(l => l.why === 'param')
  const verdict = (o, ctx, want) => {
    for (const l of origins(w, o, ctx, { stop: isValidate })) {
      const c = strip(l.expr)
      if (isValidate(c) && (stored(c.arguments[0], l.ctx) ? 'stored' : 'incoming') === want) return true
    }
    return false
  }
  const ISSUES = [{ message: 'no' }]
  const base = allOn(w, { flags: { 'Collection.encrypted': [true] } })
  /** Assumptions: what is rejected, and constants for the record and its declared fields. */
  const assumptions = ({ reject, schema, rec, recDecl, fields, refs, target }) => {
    const prop = (o, n, ctx) => isIssues(o, n) ? { vals: [reject && verdict(o, ctx, reject) ? ISSUES : undefined] } : undefined
    return {
      assumeProp: (src, n, ctx) => prop(src, n, ctx),
      assume(e, ctx, I) {
        if (ts.isPropertyAccessExpression(e)) { const p = prop(e.expression, e.name.text, ctx); if (p) return p }
        if (recDecl && ts.isIdentifier(e) && w.declOf(e) === recDecl) return { vals: [rec] }
        const t = ts.isPropertyAccessExpression(e) || ts.isIdentifier(e) || ts.isCallExpression(e) ? typeText(e) : ''
        if (/^StandardSchemaV1</.test(t) && !ts.isCallExpression(e)) return { vals: [schema ? SOME : undefined] }
        const m = /^(?:Readonly<)?(?:Record<string, |\{ (?:readonly )?\[[^\]]*\]: )(I18nTextDescriptor|RefDescriptor)\b/.exec(t)
        if (m) return { vals: [m[1] === FIELDS ? fields ?? {} : refs ?? {}] }
        if (ts.isCallExpression(e) && target !== undefined) { const c = strip(e.expression); if (ts.isPropertyAccessExpression(c) && w.memberName(c) === 'Collection.get') return { vals: [target] } }
        return base(e, ctx, I)
      },
    }
  }
  const writes = r => r.hits.filter(h => h.kind === 'record' && h.op === 'put' && !h.st.must.has('failed'))
  const run = (o, opts, more = {}) => recordRun(w, o.fn, { rel, ...undoing, ...assumptions({ ...opts, recDecl: opts.rec !== undefined ? isT(o.fn) : null }), ...more, vals: true })

  // ── validated value ──────────────────────────────────────────────────
  let vid = new Map()
  const key = d => `valid:${vid.get(d) ?? (vid.set(d, vid.size), vid.get(d))}`
  const isOut = (e, st, ctx, depth = 0) => {
    e = stripAwait(e)
    if (!e || depth > 14) return false
    if (ts.isIdentifier(e)) {
      const d = w.declOf(e)
      if (!d) return false
      if (st.must.has(key(d))) return true
      if (ts.isParameter(d)) { const a = w.argFor(d, ctx); return !!a?.expr && isOut(a.expr, st, a.ctx, depth + 1) }
      if (ts.isVariableDeclaration(d) && d.initializer && !w.assignmentsOf(w.sym(e)).length) return isOut(d.initializer, st, ctx, depth + 1)
      if (ts.isBindingElement(d) && ts.isObjectBindingPattern(d.parent) && (d.propertyName ?? d.name).getText() === 'value' && ts.isVariableDeclaration(d.parent.parent)) return isResult(d.parent.parent.initializer)
      return false
    }
    if (ts.isPropertyAccessExpression(e) && e.name.text === 'value') return isResult(e.expression)
    if (ts.isConditionalExpression(e)) return isOut(e.whenTrue, st, ctx, depth + 1) && isOut(e.whenFalse, st, ctx, depth + 1)
    if (ts.isObjectLiteralExpression(e)) return e.properties.some(p => ts.isSpreadAssignment(p) && isOut(p.expression, st, ctx, depth + 1))
    if (ts.isCallExpression(e)) {
      if (/^(structuredClone|Object\.(freeze|assign)|Promise\.resolve)$/.test(strip(e.expression).getText())) return e.arguments.some(a => isOut(a, st, ctx, depth + 1))
      const tg = w.resolveCall(e, ctx)
      return tg.length > 0 && tg.every(t => { const rs = w.returnExprs(t.fn); const c2 = mkCtx(t.fn, e, ctx, t.ctx); return rs.length > 0 && rs.every(x => isOut(x, st, c2, depth + 1) || deadReturn(x, c2)) })
    }
    return false
  }
  const isResult = e => e && /StandardSchemaV1SyncResult|StandardSchemaV1Issue/.test(w.checker.typeToString(w.checker.getTypeAtLocation(stripAwait(e)), undefined, ts.TypeFormatFlags.NoTruncation))
  // a return guarded by the absence of the schema
  const deadReturn = (x, ctx) => {
    for (let n = x; n && !ts.isBlock(n?.parent?.parent ?? n) || n; n = n.parent) {
      const p = n.parent
      if (!p || n === ctx.fn) return false
      if (ts.isIfStatement(p) && p.thenStatement === n) { const c = strip(p.expression); if (/(=== undefined|== null|^!)/.test(c.getText()) && [...walk(c)].some(y => /^StandardSchemaV1</.test(typeText(y)))) return true }
      if (ts.isConditionalExpression(p) && p.whenFalse === n && [...walk(p.condition)].some(y => /^StandardSchemaV1</.test(typeText(y)))) return true
    }
    return false
  }
  function* walk(n) { yield n; const kids = []; ts.forEachChild(n, c => { kids.push(c) }); for (const k of kids) yield* walk(k) }
  const track = {
    onAssign(e, st, ctx, I) {
      if (!ts.isBinaryExpression(e)) return undefined
      const l = strip(e.left)
      if (!ts.isIdentifier(l)) return undefined
      const d = w.declOf(l)
      if (!d) return undefined
      return isOut(e.right, st, ctx) ? addMust(st, key(d)) : st.must.has(key(d)) ? drop(st, key(d)) : undefined
    },
  }
  const through = (e, c) => {
    const s = subtle(w, e)
    if (s === 'encrypt') return [e.arguments[2]]
    const k = enc(e, c)
    if (k) return k
    if (ts.isCallExpression(e) && !storeOp(w, e)) {
      const tg = w.resolveCall(e, c)
      if (/^JSON\.parse$/.test(strip(e.expression).getText())) return null
      if (!tg.length ? e.arguments.length : tg.every(t => !isAsync(t.fn))) return [...e.arguments]
    }
    if (ts.isNewExpression(e)) return [...(e.arguments ?? [])]
    return null
  }
  const rawLeaves = h => {
    const bad = []
    for (const l of origins(w, h.c.arguments[3], h.ctx, { path: ['_data'], through, stop: e => storeOp(w, e) || (ts.isIdentifier(e) && isOut(e, h.st, h.ctx)) || (ts.isObjectLiteralExpression(e) && isOut(e, h.st, h.ctx)) || (ts.isCallExpression(e) && /^JSON\.parse$/.test(strip(e.expression).getText())) || subtle(w, e) === 'decrypt' })) {
      if (l.why === 'param' && hasT(null, w.declOf(strip(l.expr)) ?? {})) bad.push(l)
      // composed values: look into the parts
      if (ts.isObjectLiteralExpression(strip(l.expr)) && !isOut(l.expr, h.st, h.ctx)) for (const p of strip(l.expr).properties) { const v = ts.isPropertyAssignment(p) ? p.initializer : ts.isShorthandPropertyAssignment(p) ? p.name : ts.isSpreadAssignment(p) ? p.expression : null; if (v) for (const q of origins(w, v, l.ctx, { through, stop: e => ts.isIdentifier(e) && isOut(e, h.st, h.ctx) })) if (q.why === 'param' && hasT(null, w.declOf(strip(q.expr)) ?? {})) bad.push(q) }
    }
    return bad
  }

  for (const o of direct) {
    const ok = run(o, { schema: true, rec: undefined }, track)
    const good = writes(ok)
    rep.ob('accept', `${o.name} with a schema`, good.length > 0, { node: o.fn, fn: o.fn, msg: 'an accepted record never reaches the store' })
    const no = writes(run(o, { schema: true, reject: 'incoming' }))
    rep.ob('schema', o.name, !no.length, { node: no[0]?.c ?? o.fn, fn: o.fn, msg: no[0] ? `${w.text(no[0].c)} is reachable although the schema rejected the record` : '', path: no[0] ? chain(w, no[0].ctx) : [] })
    const sites = new Map()
    for (const h of good) { const b = rawLeaves(h); if (!sites.has(h.c) || b.length) sites.set(h.c, { h, b }) }
    for (const [c, { h, b }] of sites) rep.ob('value', `${o.name} (${[...sites.keys()].indexOf(c) + 1} of ${sites.size})`, !b.length, { node: c, fn: o.fn, msg: b.length ? `the stored value still derives from the unvalidated ${strip(b[0].expr).getText()}` : '', path: chain(w, h.ctx) })
    const D = (required, languages = ['en', 'th']) => ({ f: { _noydbI18nText: true, options: { languages, required } } })
    for (const [label, fields, v, valid] of [
      ['all languages required, one missing', D('all'), { en: 'a' }, false],
      ['all languages required, one empty', D('all'), { en: 'a', th: '' }, false],
      ['all languages required, all there', D('all'), { en: 'a', th: 'b' }, true],
      ['any language required, none there', D('any'), { fr: 'a' }, false],
      ['any language required, one there', D('any'), { th: 'a' }, true],
      ['a named language required, missing', D(['th']), { en: 'a' }, false],
      ['a named language required, there', D(['th']), { th: 'a' }, true],
      ['plain text instead of a language map', D('all'), 'a', false],
      ['a translation that is not text', D('any'), { en: 'a', th: 5 }, false],
      ['a list instead of a language map', D('any'), ['a'], false],
    ]) {
      const hs = writes(run(o, { schema: false, rec: { f: v, g: 1 }, fields }))
      rep.ob(valid ? 'accept' : 'fields', `${o.name}: ${label}`, valid ? hs.length > 0 : !hs.length, { node: hs[0]?.c ?? o.fn, fn: o.fn, msg: valid ? 'a valid record is refused' : `the record reaches ${hs[0] ? w.text(hs[0].c) : ''}`, path: hs[0] ? chain(w, hs[0].ctx) : [] })
    }
    const R = mode => ({ owner: { target: 'people', mode } })
    for (const [label, refs, v, target, valid] of [
      ['strict reference, target missing', R('strict'), 'p1', null, false],
      ['strict numeric reference, target missing', R('strict'), 7, null, false],
      ['strict reference to a non-scalar', R('strict'), true, SOME, false],
      ['strict reference, target there', R('strict'), 'p1', SOME, true],
      ['strict reference left empty', R('strict'), null, null, true],
      ['warn reference, target missing', R('warn'), 'p1', null, true],
    ]) {
      const hs = writes(run(o, { schema: false, rec: { owner: v }, refs, target }))
      rep.ob(valid ? 'accept' : 'refs', `${o.name}: ${label}`, valid ? hs.length > 0 : !hs.length, { node: hs[0]?.c ?? o.fn, fn: o.fn, msg: valid ? 'a valid record is refused' : `the record reaches ${hs[0] ? w.text(hs[0].c) : ''}`, path: hs[0] ? chain(w, hs[0].ctx) : [] })
    }
  }
  const judged = new Set(direct.map(o => o.fn))
  for (const o of ops) {
    if (judged.has(o.fn)) continue
    for (const h of writes(recordRun(w, o.fn, { rel, ...undoing, assume: base }))) {
      let via = false
      for (let c = h.ctx; c; c = c.parent) if (judged.has(c.fn)) via = true
      const old = via || origins(w, h.c.arguments[3], h.ctx, { path: ['_data'], through: (e, c) => subtle(w, e) === 'decrypt' ? [e.arguments[2]] : through(e, c), stop: e => storeOp(w, e) }).every(l => l.why === 'absent' || storeOp(w, strip(l.expr)))
      rep.ob('through', `${o.name} -> ${w.fnName(enclosingFn(h.c))}`, old, { node: h.c, fn: o.fn, msg: 'new record content reaches the store without passing the validated operation', path: chain(w, h.ctx) })
    }
  }
  const ofRecord = ctx => { for (let c = ctx; c; c = c.parent) if (c.fn?.parent && ts.isClassLike(c.fn.parent)) return c.fn.parent.name?.text === 'Collection'; return true }
  // ── reads ────────────────────────────────────────────────────────────
  const cls = [...publicApi(w).classes].find(([, n]) => n === 'Collection')?.[0]
  if (!cls) rep.missing('read', 'Collection')
  for (const fn of cls ? w.publicMethods(cls) : []) {
    const name = `Collection.${fn.name.getText()}`
    const rt = fn.type?.getText() ?? ''
    if (!/\bT\b/.test(rt) || SNAPSHOT.test(name) || ops.some(o => o.fn === fn)) continue
    for (const lazy of [true, false]) {
      let dec = false
      const as = assumptions({ schema: true, reject: 'stored' })
      const r = recordRun(w, fn, {
        rel, ...as, isEvent: n => subtle(w, n) === 'decrypt',
        assume(e, ctx, I) { if (ts.isPropertyAccessExpression(e) && w.memberName(e) === 'Collection.lazy') return { vals: [lazy] }; return as.assume(e, ctx, I) },
        onCall(c, st, ctx) { if (subtle(w, c) === 'decrypt' && ofRecord(ctx)) { dec = true; return { st: addMay(st, 'plain'), opaque: true, throwSt: st } } return undefined },
        // a record that was not handed out
        onCatch: (n, st) => st && clearFacts(st, 'plain'),
      })
      if (!dec) continue
      const bad = r.out.normal?.may.has('plain') || r.out.yields?.may.has('plain')
      rep.ob('read', `${name}${lazy ? ' (lazy)' : ''}`, !bad, { node: fn, fn, msg: 'a stored record the schema rejects is returned' })
    }
  }
  rep.count('operations', ops.length)
  for (const want of ['Collection.put']) if (!direct.some(o => o.name === want)) rep.missing('schema', want)
  rep.atLeast('schema', 1); rep.atLeast('value', 2); rep.atLeast('fields', 6); rep.atLeast('refs', 3); rep.atLeast('through', 4); rep.atLeast('read', 4)
  return 'Each operation taking a record is interpreted with the validator rejecting the incoming record, with each form of broken multilingual value and with missing reference targets: no store write may remain reachable. With an accepting validator the stored bytes are traced back and must stop at its output. Reads are interpreted with the validator rejecting the stored record: no normal return may carry decrypted content.'
}
