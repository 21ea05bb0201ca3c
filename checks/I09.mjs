// I09: previous versions are saved before they are replaced; history of one record is its own.
import { ts, strip, stripAwait, origins, storeOp, publicApi, enclosingFn, addMust, chain } from '../lib/common.mjs'
import { subtle, encodingThrough } from '../lib/crypto.mjs'
import { recordOps, directOps, recordRun, allOn, undoing, viaJudged, SOME } from '../lib/records.mjs'

export default async function (w, rep) {
  rep.rule('before', 'a record that exists is replaced or removed only after its previous version was written to history')
  rep.rule('content', 'what is saved is the previous record under its own id and version')
  rep.rule('through', 'every other operation writes records only through an operation decided above')
  rep.rule('own', 'reading, pruning and clearing the history of one record reach the entries of that record and no others')
  rep.rule('newest', 'pruning keeps the newest versions')

  const rel = {}
  const isEntry = e => { if (!ts.isCallExpression(e)) return false; const c = strip(e.expression); if (!ts.isPropertyAccessExpression(c) || c.name.text !== 'get') return false; const t = w.checker.getNonNullableType(w.checker.getTypeAtLocation(e)); return !!t.getProperty('record') && !!t.getProperty('version') && !storeOp(w, e) }
  const isConfig = (e, name) => ts.isPropertyAccessExpression(e) && e.name.text === name && (w.typeName(e.expression) === 'HistoryConfig' || w.sym(e.name)?.valueDeclaration?.parent?.name?.text === 'HistoryConfig')
  const eager = { 'Collection.lazy': [false], 'Collection.hydrated': undefined }, lazy = { 'Collection.lazy': [true] }
  const variants = [
    ['cached', eager, () => true],
    ['not yet loaded', eager, I => !!I.curSt?.must.has('loaded')],
    ['lazy, cached', lazy, () => true],
    ['lazy, not cached', lazy, () => false],
  ]
  const assumeFor = (flags, cached, label) => {
    const base = allOn(w, { present: ['LedgerStore', 'Lru', 'LRU'], flags: { ...Object.fromEntries(Object.entries(flags).filter(([, v]) => v)), 'Collection.lru': [SOME] } })
    return (e, ctx, I) => {
      if (isConfig(e, 'enabled')) return { vals: [undefined, true] }
      if (isEntry(e)) return { vals: [cached(I) ? SOME : undefined] }
      if (ts.isCallExpression(e) && storeOp(w, e) === 'get') return { vals: [SOME] }
      if (ts.isPropertyAccessExpression(e) && e.name.text === 'hydrated' && !write(e)) return { vals: [label !== 'not yet loaded' || !!I.curSt?.must.has('loaded')] }
      return base(e, ctx, I)
    }
  }
  const write = e => ts.isBinaryExpression(e.parent) && e.parent.left === e && e.parent.operatorToken.kind === ts.SyntaxKind.EqualsToken
  const direct = directOps(w)
  const judged = new Set(direct.map(o => o.fn))
  const enc = encodingThrough(w)
  const isJson = e => ts.isCallExpression(e) && /^JSON\.(stringify|parse)$/.test(strip(e.expression).getText())
  for (const o of direct) {
    if (!/^Collection\.(put|delete)$/.test(o.name)) continue
    const saves = new Map()
    for (const [label, flags, cached] of variants) {
      const bad = []; let n = 0
      recordRun(w, o.fn, {
        rel, vals: true, assume: assumeFor(flags, cached, label), ...undoing,
        onCall(c, st, ctx, I, targets) { return targets?.some(t => judged.has(t.fn)) && ctx.fn ? { st, opaque: true, throwSt: st } : undefined },
        onStore({ c, op, kind, st, ctx }) {
          if (op === 'loadAll' || op === 'list') return { st: addMust(st, 'loaded'), opaque: true, throwSt: st }
          if (kind === 'history' && op === 'put') { saves.set(c, { c, ctx }); return { st: addMust(st, 'saved'), opaque: true, throwSt: st } }
          if (kind === 'record' && (op === 'put' || op === 'delete') && !st.must.has('failed')) { n++; if (!st.must.has('saved')) bad.push({ c, ctx }) }
          return { st, opaque: true, throwSt: st }
        },
      })
      if (n || bad.length) rep.ob('before', `${o.name}: ${label}`, !bad.length, { node: bad[0]?.c ?? o.fn, fn: o.fn, msg: 'an existing record may be replaced or removed before its previous version is in history', path: bad[0] ? chain(w, bad[0].ctx) : [] })
    }
    const prior = e => isEntry(e) || (ts.isCallExpression(e) && storeOp(w, e) === 'get')
    for (const { c, ctx } of saves.values()) {
      const wrong = []
      const v = origins(w, c.arguments[3], ctx, { path: ['_v'], stop: prior }).filter(l => l.why !== 'absent')
      if (!v.length || v.some(l => !prior(stripAwait(strip(l.expr))) || !['version', '_v'].includes(l.path?.at(-1)))) wrong.push(`version ${v.map(l => w.text(l.expr)).join('/') || 'unknown'}`)
      const d = origins(w, c.arguments[3], ctx, { path: ['_data'], stop: prior, through: (e, c2) => subtle(w, e) === 'encrypt' ? [e.arguments[2]] : subtle(w, e) === 'decrypt' ? [e.arguments[2]] : enc(e, c2) ?? (isJson(e) ? [e.arguments[0]] : null) }).filter(l => l.why !== 'absent')
      if (!d.length || d.some(l => l.why === 'param' && enclosingParam(w, l, o.fn) === 'record')) wrong.push('the incoming record')
      const id = origins(w, c.arguments[2], ctx, { through: e => ts.isTemplateExpression(e) ? e.templateSpans.map(s => s.expression) : ts.isBinaryExpression(e) ? [e.left, e.right] : null })
      if (!id.some(l => enclosingParam(w, l, o.fn) === 'id')) wrong.push('another id')
      rep.ob('content', o.name, !wrong.length, { node: c, fn: o.fn, msg: `the saved entry carries ${wrong.join(', ')}`, path: chain(w, ctx) })
    }
  }
  for (const n of ['Collection.put', 'Collection.delete']) if (!direct.some(o => o.name === n)) rep.missing('before', n)
  const on = allOn(w, { present: ['LedgerStore'] })
  for (const o of recordOps(w)) {
    if (judged.has(o.fn)) continue
    for (const h of viaJudged(w, o, judged, { rel, assume: on })) rep.ob('through', `${o.name} -> ${w.fnName(enclosingFn(h.c))}`, h.via, { node: h.c, fn: o.fn, msg: 'a record is written without passing an operation that saves history', path: chain(w, h.ctx) })
  }
  // ── whose entries ────────────────────────────────────────────────────
  const mine = ['c:a:0000000001', 'c:a:0000000002', 'c:a:0000000010']
  const other = ['c:a:b:0000000001', 'c:ab:0000000001', 'd:a:0000000001', 'c:a:0000000001:0000000003', 'c::0000000001']
  const inner = fn => (c, st, ctx, I, targets) => targets?.some(t => judged.has(t.fn) && t.fn !== fn) ? { st, opaque: true, throwSt: st } : undefined
  const touch = (fn, { id, list, keep }) => {
    const got = { get: new Set(), delete: new Set() }
    let unknown = null
    const base = assumeFor(eager, () => true, 'cached')
    recordRun(w, fn, {
      rel, vals: true, onCall: inner(fn),
      assume(e, ctx, I) {
        if (ts.isIdentifier(e)) { const d = w.declOf(e); if (d && ts.isParameter(d) && d.parent === fn) { if (d.name.getText() === 'id' || d.name.getText() === 'recordId') return { vals: [id] } ; if (w.typeName(d) === 'HistoryOptions') return { vals: [undefined] } } }
        if (ts.isPropertyAccessExpression(e) && w.memberName(e) === 'Collection.name') return { vals: ['c'] }
        if (ts.isPropertyAccessExpression(e) && (e.name.text === 'keepVersions' || isConfig(e, 'maxVersions'))) return { vals: [keep] }
        if (ts.isPropertyAccessExpression(e) && e.name.text === 'beforeDate') return { vals: [undefined] }
        if (ts.isCallExpression(e) && storeOp(w, e) === 'list') return { vals: [list] }
        return base(e, ctx, I)
      },
      onStore({ c, op, kind, ctx, I, st }) {
        if ((op === 'delete' || op === 'get') && kind === 'history') {
          const v = I.constEval(c.arguments[2], ctx)
          if (!v) unknown = { c, ctx }
          for (const x of v?.vals ?? []) got[op].add(x)
        }
        return { st, opaque: true, throwSt: st }
      },
    })
    return { ...got, unknown }
  }
  const api = [...publicApi(w).fns].filter(([fn]) => fn.parent && ts.isClassLike(fn.parent) && fn.parent.name?.text === 'Collection')
  const same = (a, b) => a.size === b.length && b.every(x => a.has(x))
  const show = s => [...s].map(x => `"${x}"`).join(', ') || 'nothing'
  let found = 0
  for (const [fn, name] of api) {
    if (!fn.body) continue
    const hs = recordRun(w, fn, { rel, assume: assumeFor(eager, () => true, 'cached'), onCall: inner(fn) }).hits
    const dels = hs.some(h => h.op === 'delete' && h.kind === 'history'), reads = hs.some(h => h.op === 'get' && h.kind === 'history')
    const idParam = fn.parameters.find(p => p.name.getText() === 'id')
    if (!idParam || (!dels && !reads)) continue
    const listed = hs.some(h => h.op === 'list')
    if (!listed) continue
    found++
    const op = dels ? 'delete' : 'get'
    const rows = [['record', 'a', [...mine, ...other], mine], ['id with a separator', 'a:b', [...mine, ...other], ['c:a:b:0000000001']], ['empty id', '', [...mine, ...other], ['c::0000000001']]]
    for (const [label, id, list, want] of rows) {
      const pruning = dels && hs.some(h => h.kind === 'record') // keeps some
      const keep = dels && pruning ? 1 : 0
      const expect = keep ? want.slice(0, -1) : want
      const r = touch(fn, { id, list, keep })
      const g = r[op]
      rep.ob('own', `${name}: ${label}`, !r.unknown && (op === 'get' ? expect.every(x => g.has(x)) && [...g].every(x => want.includes(x)) : same(g, expect)), { node: r.unknown?.c ?? fn, fn, msg: r.unknown ? 'cannot tell which history entries are touched' : `${op === 'get' ? 'reads' : 'deletes'} ${show(g)} for record "${id}" instead of ${show(expect)}` })
    }
    if (dels && fn.parameters.some(p => w.typeName(p) === 'PruneOptions')) for (const keep of [1, 2, 3]) {
      const r = touch(fn, { id: 'a', list: ['c:a:0000000010', 'c:b:0000000003', 'c:a:0000000002', 'c:a:0000000001'], keep })
      const want = mine.slice(0, 3 - keep)
      rep.ob('newest', `${name}: keep ${keep}`, !r.unknown && same(r.delete, want), { node: fn, fn, msg: `deletes ${show(r.delete)} instead of ${show(want)}` })
    }
  }
  rep.atLeast('own', 6)
  rep.count('operations touching history entries', found)
  rep.assumptions.push('writes at a clearance tier leave no copy behind: an earlier version under the ordinary key would undo the tier')
  rep.assumptions.push('history ids are read as the collection, the record and the version joined as they are written by the library; two different collections whose names contain the separator are outside the rows')
  return 'Interprets every record write with the record already present (cached, not yet loaded, lazy) and requires the history write on every path before the store write, with the previous content and version; evaluates the selection of history entries on lists mixing a record with records whose id or collection extends it.'
}
function enclosingParam(w, l, fn) {
  const d = l.why === 'param' ? (ts.isParameter(l.expr) ? l.expr : ts.isIdentifier(strip(l.expr)) ? w.declOf(strip(l.expr)) : null) : null
  return d && ts.isParameter(d) && d.parent === fn ? d.name.getText() : null
}
