// I14: access under consent, and bulk blob export, is audited; audit entries are permanent.
import { ts, strip, stripAwait, isFnLike, walkNodes, origins, storeOp, publicApi, enclosingFn, mkCtx, addMust, clearFacts, chain } from '../lib/common.mjs'
import { directOps, recordRun, recordOps, allOn, undoing, viaJudged, SOME } from '../lib/records.mjs'

export default async function (w, rep) {
  rep.rule('written', 'under consent, an operation that wrote or deleted a record returns only after its audit entry was stored')
  rep.rule('read', 'under consent, a record is handed out only after its audit entry was stored')
  rep.rule('through', 'every other write of a record goes through an operation that leaves an audit entry')
  rep.rule('entry', 'the audit entry names the actor, the purpose of the scope, the operation, the collection and the record')
  rep.rule('scope', 'the scope is in force while its body runs and the previous one is put back on every way out')
  rep.rule('kept', 'audit entries are stored under fresh ids and never rewritten or removed')
  rep.rule('export', 'the audit entry of a bulk blob export is stored before the first blob is handed out')

  const rel = {}
  const present = ['ConsentContext', 'LedgerStore', 'CollectionIndexes', 'PersistedCollectionIndex']
  const assume0 = allOn(w, { present, flags: { 'Collection.tiers': [SOME] } })
  const direct = directOps(w)
  const judged = new Set(direct.map(o => o.fn))
  const audits = new Map()
  const reads = []
  for (const [fn, name] of publicApi(w).fns) if (/^Collection\.get(AtTier)?$/.test(name) && fn.body) reads.push({ fn, name })
  const subjectFns = new Set([...judged, ...reads.map(r => r.fn)])
  const base = {
    rel, ...undoing, maxDepth: 9,
    assume: assume0,
    isEvent: n => ts.isCallExpression(n) && isEntry(n),
  }
  const isEntry = c => /^JSON\.stringify$/.test(c.expression.getText()) && c.arguments[0] && w.typeName(c.arguments[0]) === 'ConsentAuditEntry'
  const onCall = o => (c, st, ctx) => {
    if (!ts.isCallExpression(c) || !isEntry(c)) return undefined
    for (let x = ctx; x; x = x.parent) if (subjectFns.has(x.fn)) { if (x.fn !== o.fn) return undefined; break }
    const xs = audits.get(o) ?? []
    if (!xs.some(x => x.expr === c.arguments[0] && x.ctx === ctx)) xs.push({ expr: c.arguments[0], ctx })
    audits.set(o, xs)
    return undefined
  }
  const onStore = o => ({ c, op, kind, st, ctx, I }) => {
    if (op === 'put' && kind === 'consent_audit') {
      return { st: I.isAwaited(c) ? addMust(clearFacts(st, 'owed'), 'logged') : st, opaque: true, throwSt: st }
    }
    if (kind === 'record' && (op === 'put' || op === 'delete') && !st.must.has('failed')) return { st: addMust(clearFacts(st, 'logged'), 'owed'), opaque: true, throwSt: st }
    return undefined
  }
  for (const o of direct) {
    const r = recordRun(w, o.fn, { ...base, onStore: onStore(o), onCall: onCall(o) })
    const owes = r.out.normal?.may.has('owed')
    const h = r.hits.find(x => x.kind === 'record' && x.op !== 'get')
    rep.ob('written', o.name, !owes, { node: h?.c ?? o.fn, fn: o.fn, msg: 'returns on some path without storing the audit entry of this write', path: h ? chain(w, h.ctx) : [] })
  }
  // reads
  for (const n of ['Collection.get', 'Collection.getAtTier']) if (!reads.some(r => r.name === n)) rep.missing('read', n)
  const nothing = (I, e, ctx) => {
    if (!e) return true
    const v = I.constEval(e, ctx)
    if (v && v.vals.every(x => x === null || x === undefined)) return true
    const x = stripAwait(strip(e))
    if (ts.isConditionalExpression(x)) return nothing(I, x.whenTrue, ctx) && nothing(I, x.whenFalse, ctx)
    const t = w.checker.getNonNullableType(w.checker.getTypeAtLocation(x))
    return !t.isUnion?.() && !!t.getProperty?.('_ghost') || w.checker.typeToString(w.checker.getTypeAtLocation(x)) === 'null'
  }
  for (const o of reads) {
    const bad = []; let n = 0
    const r = recordRun(w, o.fn, {
      ...base, onStore: onStore(o), onCall: onCall(o),
      onReturn(s, st, ctx, I) { if (ctx.fn === o.fn && !ctx.parent) { n++; if (!nothing(I, s.expression, ctx) && !st.must.has('logged')) bad.push(s) } },
    })
    const hasA = r.hits.some(h => h.kind === 'consent_audit')
    rep.ob('read', o.name, n > 0 && hasA && !bad.length, { node: bad[0] ?? o.fn, fn: o.fn, msg: 'hands out a record before its audit entry was stored' })
    rep.count('returns', n)
  }
  for (const o of recordOps(w).filter(o => !judged.has(o.fn))) {
    const direct = viaJudged(w, o, judged, { rel, maxDepth: 9 }).filter(h => !h.via)
    if (/^DictionaryHandle\./.test(o.name)) continue
    rep.ob('through', o.name, !direct.length, { node: direct[0]?.c ?? o.fn, fn: o.fn, msg: 'writes a record without passing an operation that leaves an audit entry', path: direct[0] ? chain(w, direct[0].ctx) : [] })
  }
  // content of the entry
  const fieldOf = (e, ctx, f) => origins(w, e, ctx, { path: [f], stop: x => /^(UnlockedKeyring\.userId|ConsentContext\.)/.test(fieldName(x) ?? '') }).filter(l => l.why !== 'absent')
  const wants = o => {
    const op = /\.delete$/.test(o.name) ? 'delete' : /\.get/.test(o.name) ? 'get' : 'put'
    return {
      actor: l => member(l) === 'UnlockedKeyring.userId',
      purpose: l => member(l) === 'ConsentContext.purpose',
      consentHash: l => member(l) === 'ConsentContext.consentHash',
      op: l => ts.isStringLiteralLike(strip(l.expr)) && strip(l.expr).text === op,
      collection: l => member(l) === 'Collection.name' || (ts.isIdentifier(strip(l.expr)) && /^collection(Name)?$/.test(strip(l.expr).text)) || l.why === 'param',
      recordId: l => l.why === 'param' && pname(l) === 'id' && enclosingParamFn(l) === o.fn,
    }
  }
  const fieldName = x => {
    if (ts.isPropertyAccessExpression(x)) return w.memberName(x)
    const d = ts.isIdentifier(x) ? w.declOf(x) : null
    if (!d || !ts.isBindingElement(d) || d.dotDotDotToken || !ts.isObjectBindingPattern(d.parent) || !ts.isVariableDeclaration(d.parent.parent) || !d.parent.parent.initializer) return null
    return `${w.typeName(d.parent.parent.initializer)}.${(d.propertyName ?? d.name).getText()}`
  }
  const member = l => fieldName(strip(l.expr))
  const pname = l => { const d = ts.isIdentifier(strip(l.expr)) ? w.declOf(strip(l.expr)) : ts.isParameter(l.expr) ? l.expr : null; return d && ts.isParameter(d) ? d.name.getText() : null }
  const enclosingParamFn = l => { const d = ts.isIdentifier(strip(l.expr)) ? w.declOf(strip(l.expr)) : null; return d?.parent }
  let entries = 0
  for (const [o, ls] of audits) {
    for (const l of ls) for (const [f, ok] of Object.entries(wants(o))) {
      const vs = fieldOf(l.expr, l.ctx, f)
      entries++
      rep.ob('entry', `${o.name}: ${f}`, vs.length > 0 && vs.every(ok), { node: vs.find(v => !ok(v))?.expr ?? l.expr, fn: o.fn, msg: `the ${f} of the audit entry is not that of the access (${vs.filter(v => !ok(v)).map(v => v.expr.getText().slice(0, 60)).join(' | ') || 'missing'})` })
    }
  }
  if (!entries) rep.missing('entry', 'audit entries')
  // kept
  const seen = new Set()
  for (const c of w.calls) {
    const op = ts.isCallExpression(c) ? storeOp(w, c) : null
    if (op !== 'delete' && op !== 'put') continue
    const ls = origins(w, c.arguments[1], null).map(l => strip(l.expr)).filter(x => ts.isStringLiteralLike(x) && /^_(consent|export)_audit$/.test(x.text))
    if (!ls.length) continue
    seen.add(ls[0].text)
    if (op === 'delete') { rep.ob('kept', `${w.fnName(enclosingFn(c))}: delete`, false, { node: c, msg: 'removes audit entries' }); continue }
    const idx = strip(c.arguments[2])
    const from = ts.isPropertyAccessExpression(idx) && /AuditEntry$/.test(w.typeName(idx.expression)) ? made(w.typeName(idx.expression)) : null
    if (from) { for (const l of from) { const p = l.properties.find(q => q.name?.getText() === 'id'), v = p && (ts.isPropertyAssignment(p) ? p.initializer : p.name); const os = v ? origins(w, v, null, { stop: isFresh }) : []; rep.ob('kept', `${ls[0].text}: id`, os.length > 0 && os.every(o => isFresh(strip(o.expr)) || random(o.expr)), { node: l, msg: 'an audit entry is given an id that is not fresh' }) } if (!from.length) rep.missing('kept', 'audit entries of exports'); continue }
    const ids = origins(w, c.arguments[2], null, { callers: true, stop: x => ts.isCallExpression(x) && isFresh(x) })
    rep.ob('kept', `${ls[0].text}: id`, ids.length > 0 && ids.every(l => isFresh(strip(l.expr)) || random(l.expr)), { node: c, msg: `an audit entry is stored under an id that is not fresh (${ids.filter(l => !isFresh(strip(l.expr)) && !random(l.expr)).map(l => l.expr.getText().slice(0, 60)).join(' | ')})` })
  }
  for (const n of ['_consent_audit', '_export_audit']) if (!seen.has(n)) rep.missing('kept', `write of ${n}`)
  function made(tn) { const out = []; for (const sf of w.sourceFiles) walkNodes(sf, n => { if (ts.isObjectLiteralExpression(n) && w.checker.getContextualType(n)?.symbol?.name === tn) out.push(n) }); return out }
  function isFresh(x) { if (!ts.isCallExpression(x)) return false; return w.resolveCall(x).some(t => drawsRandom(t.fn)) }
  function random(x) { return /randomUUID|getRandomValues/.test(x.getText()) }
  function drawsRandom(fn, d = 0) {
    if (!fn?.body || d > 3) return false
    if (fn._draws !== undefined) return fn._draws
    fn._draws = false
    let y = false
    walkNodes(fn.body, n => { if (ts.isCallExpression(n)) { if (/\.(getRandomValues|randomUUID)$/.test(n.expression.getText())) y = true; else if (!y && !storeOp(w, n)) y = w.resolveCall(n).some(t => t.fn !== fn && drawsRandom(t.fn, d + 1)) } })
    return (fn._draws = y)
  }
  // scope
  const scope = [...publicApi(w).fns].find(([f, n]) => n === 'Vault.withConsent' && f.body)
  if (!scope) rep.missing('scope', 'Vault.withConsent')
  else {
    const fn = scope[0]
    const slot = n => ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && w.typeName(n.left) === 'ConsentContext' ? n : null
    const isBody = c => { if (!ts.isCallExpression(c) || !ts.isIdentifier(strip(c.expression))) return false; const ls = origins(w, c.expression, null); return ls.some(l => l.why === 'param') && ls.every(l => { const d = ts.isIdentifier(strip(l.expr)) ? w.declOf(strip(l.expr)) : null; return d && ts.isParameter(d) && d.parent === fn }) }
    let ran = null, early = null
    /** Returned from inside a try without waiting: the clean-up runs first. */
    const bare = c => { let p = c.parent; while (p && !ts.isReturnStatement(p)) { if (ts.isAwaitExpression(p) || isFnLike(p)) return false; p = p.parent } for (let q = p; q && !isFnLike(q); q = q.parent) if (ts.isTryStatement(q.parent) && q.parent.tryBlock === q) return true; return false }
    const valueKind = (e, ctx) => { const ls = origins(w, e, ctx, { stop: x => ts.isPropertyAccessExpression(x) && w.typeName(x) === 'ConsentContext' }); if (ls.length && ls.every(l => { const d = ts.isIdentifier(strip(l.expr)) ? w.declOf(strip(l.expr)) : null; return d && ts.isParameter(d) && d.parent === fn })) return 'new'; return ls.length && ls.every(l => ts.isPropertyAccessExpression(strip(l.expr)) && w.typeName(strip(l.expr)) === 'ConsentContext') ? 'prior' : 'other' }
    const r = recordRun(w, fn, {
      isEvent: n => !!slot(n) || isBody(n),
      onAssign(n, st, ctx) { if (!slot(n)) return undefined; const k = valueKind(n.right, ctx); return addMust(clearFacts(clearFacts(clearFacts(st, 'new'), 'prior'), 'other'), k) },
      onCall(c, st, ctx, I) {
        if (!isBody(c)) return undefined
        ran = c
        if (!st.must.has('new')) early = c
        if (!I.isAwaited(c) || bare(c)) early = c
        return { st: addMust(st, 'ran'), opaque: true, throwSt: addMust(st, 'ran') }
      },
      onRaise: () => null,
    })
    const back = s => !s || (s.may.has('ran') ? s.must.has('prior') && !s.may.has('new') : true)
    rep.ob('scope', 'Vault.withConsent: in force', !!ran && !early, { node: early ?? fn, fn, msg: 'the body does not run (or is not awaited) under the scope' })
    rep.ob('scope', 'Vault.withConsent: after success', back(r.out.normal), { node: fn, fn, msg: 'the scope stays in force after the body returned' })
    rep.ob('scope', 'Vault.withConsent: after failure', back(r.out.throwSt), { node: fn, fn, msg: 'the scope stays in force after the body failed' })
  }
  // bulk export
  const exp = [...publicApi(w).fns].filter(([f, n]) => n === 'Vault.exportBlobs' && f.body)
  if (!exp.length) rep.missing('export', 'Vault.exportBlobs')
  const gens = new Map()
  for (const f of w.fns) if (f.asteriskToken && f.body && w.pkgOf(f) === 'hub') { let y = false; walkNodes(f.body, n => { if (ts.isYieldExpression(n) && n.expression && hasBytes(n.expression)) y = true }); if (y) gens.set(f, w.fnName(f)) }
  function hasBytes(e) { return w.typeName(e) === 'ExportedBlob' }
  for (const [f, name] of gens) {
    // seen from the caller that builds the handle, so that what it passes in is known
    const host = enclosingFn(f), starts = []
    for (const [x] of exp) recordRun(w, x, { maxDepth: 6, isEvent: n => ts.isCallExpression(n) && w.resolveCall(n).some(t => t.fn === host), onCall(c, st, ctx, I, targets) { for (const t of targets ?? []) if (t.fn === host) { const h = mkCtx(host, c, ctx, t.ctx); starts.push(mkCtx(f, null, h, h)) } } })
    if (!starts.length) rep.missing('export', `way from Vault.exportBlobs to ${name}`)
    let bad = null, n = 0
    for (const ctx of starts) {
      recordRun(w, f, {
        from: ctx, maxDepth: 9,
        assume: (e, cx, I) => {
          if (ts.isIdentifier(e)) { const d = w.declOf(e); if (d && ts.isVariableDeclaration(d) && d.initializer && d.initializer.kind === ts.SyntaxKind.NullKeyword && enclosingFn(d) !== enclosingFn(e)) return { vals: [null] } }
          return undefined
        },
        isEvent: n => ts.isYieldExpression(n) || ts.isAwaitExpression(n) || (ts.isCallExpression(n) && n.arguments.some(a => w.checker.getContextualType(a)?.symbol?.name === 'ExportBlobsAuditEntry')),
        onCall(c, st, cx, I, targets) { return targets?.length && targets.every(t => stores(t, c, cx)) ? { st: addMust(st, 'started') } : undefined },
        onAwait(e, st, cx) {
          if (!st.must.has('started') || st.must.has('audited')) return undefined
          const ls = origins(w, e.expression ?? e, cx).filter(l => strip(l.expr).kind !== ts.SyntaxKind.NullKeyword)
          return ls.length && ls.every(l => ts.isCallExpression(strip(l.expr)) && w.resolveCall(strip(l.expr), l.ctx).some(t => stores(t, strip(l.expr), l.ctx))) ? addMust(st, 'audited') : undefined
        },
        onStore({ c, op, kind, st, I }) { if (op === 'put' && kind === 'export_audit') { return { st: I.isAwaited(c) ? addMust(st, 'audited') : st, opaque: true, throwSt: st } } return undefined },
        onYield(e, st) { n++; if (!st.must.has('audited')) bad ??= e; return undefined },
      })
    }
    rep.ob('export', name, n > 0 && !bad, { node: bad ?? f, fn: f, msg: 'a blob is handed out before the audit entry of the export was stored' })
  }
  /** The function stores the audit entry on every way to its return. */
  function stores(t, c, cx) {
    if (!t.fn.body || t.fn.asteriskToken) return false
    if (t.fn._storesAudit !== undefined) return t.fn._storesAudit
    t.fn._storesAudit = false
    const r = recordRun(w, t.fn, { rel, maxDepth: 4, onStore({ c, op, kind, st, I }) { return op === 'put' && kind === 'export_audit' && I.isAwaited(c) ? { st: addMust(st, 'audited'), opaque: true, throwSt: st } : undefined } })
    return (t.fn._storesAudit = !!r.out.normal?.must.has('audited'))
  }
  if (!gens.size) rep.missing('export', 'generator of exported blobs')
  rep.atLeast('written', 3); rep.atLeast('entry', 12)
  return 'Interprets every single-record operation with a consent scope in force and requires an awaited store of an audit entry after each record write and before each record is returned; traces every field of the stored entry; requires fresh ids and no deletes for audit entries; checks the scope setter on every exit and the export generator before each yield.'
}
