// I10: cache, indexes and notifications follow the store, never precede it.
import { ts, strip, stripAwait, origins, storeOp, enclosingFn, addMust, clearFacts, chain } from '../lib/common.mjs'
import { recordOps, directOps, recordRun, allOn, undoing, SOME } from '../lib/records.mjs'

export default async function (w, rep) {
  rep.rule('after', 'cache, indexes, sync queue and listeners hear of a change only once the store accepted it')
  rep.rule('always', 'an operation that wrote a record returns only after cache, indexes, sync queue and listeners were updated')
  rep.rule('right', 'the update concerns the written record, drops a deleted one, and pairs it with the stored version')
  rep.rule('undone', 'a write outside these operations brings cache and indexes in line as well')
  rep.rule('fill', 'memory is filled from the store with what was read there, under the id it was read from')

  const rel = {}
  const holds = x => { const t = w.checker.getNonNullableType(w.checker.getTypeAtLocation(x)); const g = t.getProperty('get'); if (!g) return false; const gt = w.checker.getTypeOfSymbolAtLocation(g, x).getCallSignatures()[0]; const r = gt && w.checker.getNonNullableType(w.checker.getReturnTypeOfSignature(gt)); return !!r && !!r.getProperty('record') && !!r.getProperty('version') }
  /** {what, how, key, value} of a call that updates memory or tells someone. */
  const told = c => {
    if (c._told !== undefined) return c._told
    c._told = null
    if (!ts.isCallExpression(c)) return null
    const f = strip(c.expression)
    if (!ts.isPropertyAccessExpression(f)) return null
    const m = f.name.text
    if (/^(set|delete|remove|clear)$/.test(m) && !storeOp(w, c) && holds(f.expression)) return (c._told = { what: 'cache', how: m === 'set' ? 'set' : 'drop', key: c.arguments[0], value: c.arguments[1] })
    if (/^(upsert|remove)$/.test(m) && /^(CollectionIndexes|PersistedCollectionIndex)$/.test(w.typeName(f.expression))) return (c._told = { what: 'index', how: m === 'upsert' ? 'set' : 'drop', key: c.arguments[0] })
    if (m === 'emit' && c.arguments[0] && ts.isStringLiteralLike(c.arguments[0]) && c.arguments[0].text === 'change') return (c._told = { what: 'listeners', event: c.arguments[1] })
    if (m === 'onDirty' && w.memberName(f) === 'Collection.onDirty') return (c._told = { what: 'sync queue', key: c.arguments[1], how: c.arguments[2] })
    return null
  }
  const isEntry = e => { if (!ts.isCallExpression(e)) return false; const c = strip(e.expression); return ts.isPropertyAccessExpression(c) && c.name.text === 'get' && !storeOp(w, e) && holds(c.expression) }
  const variants = [
    ['in memory', { 'Collection.lazy': [false], 'Collection.hydrated': [true] }, true],
    ['lazy, cached', { 'Collection.lazy': [true] }, true],
    ['lazy, not cached', { 'Collection.lazy': [true] }, false],
  ]
  const assumeFor = (flags, cached, hist) => {
    const base = allOn(w, { present: ['LedgerStore', 'CollectionIndexes', 'PersistedCollectionIndex', 'SyncEngine'], flags: { ...flags, 'Collection.lru': [SOME], 'Collection.tiers': [SOME] } })
    return (e, ctx, I) => {
      if (isEntry(e)) return { vals: [cached ? SOME : undefined] }
      if (ts.isCallExpression(e) && storeOp(w, e) === 'get') return { vals: [SOME] }
      if (ts.isPropertyAccessExpression(e) && e.name.text === 'enabled' && w.typeName(e.expression) === 'HistoryConfig') return { vals: [hist] }
      if (ts.isPropertyAccessExpression(e) && e.name.text === 'length' && /IndexDef\[\]$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e.expression)))) return { vals: [1] }
      if (ts.isCallExpression(e) && /extractIndexValue$/.test(strip(e.expression).getText())) return { vals: [SOME] }
      return base(e, ctx, I)
    }
  }
  const isDefs = e => /IndexDef\[\]$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e)))
  const direct = directOps(w)
  const judged = new Set(direct.map(o => o.fn))
  const ownId = (l, fn) => l.why === 'param' && paramName(w, l, fn) === 'id'
  const keyed = (t, ctx, fn) => !t.key || origins(w, t.key, ctx).every(l => ownId(l, fn))
  const OWED = ['cache', 'index', 'sync queue', 'listeners']
  for (const o of direct) {
    const del = /\.delete$/.test(o.name), tier = !/\.(put|delete)$/.test(o.name)
    const events = new Map(), writes = new Map()
    for (const [label, flags, cached] of variants) for (const hist of [true, false]) {
      const early = []
      const r = recordRun(w, o.fn, {
        rel, assume: assumeFor(flags, cached, hist), ...undoing, maxDepth: 9,
        isEvent: n => ts.isCallExpression(n) && !!told(n),
        nonEmpty: e => isDefs(e),
        onCall(c, st, ctx, I, targets) {
          if (targets?.some(t => judged.has(t.fn)) && ctx.fn) return { st, opaque: true, throwSt: st }
          const t = told(c)
          if (!t) return undefined
          if (t.what === 'listeners' ? !aboutWrite(w, t, ctx, o.fn, ownId) : !keyed(t, ctx, o.fn)) return { st, opaque: true, throwSt: st }
          events.set(c, { t, ctx, c })
          if (!st.must.has('written')) early.push({ c, ctx, t })
          return { st: clearFacts(st, `owe ${t.what}`), opaque: true, throwSt: st }
        },
        onStore({ c, op, kind, st, ctx, I }) {
          if (kind === 'record' && (op === 'put' || op === 'delete') && !st.must.has('failed')) {
            writes.set(c, { c, ctx })
            let s = I.isAwaited(c) ? addMust(st, 'written') : st
            for (const k of OWED) s = addMust(s, `owe ${k}`)
            return { st: s, opaque: true, throwSt: st }
          }
          return { st, opaque: true, throwSt: st }
        },
      })
      if (hist) rep.ob('after', `${o.name}: ${label}`, !early.length, { node: early[0]?.c ?? o.fn, fn: o.fn, msg: `the ${early[0]?.t.what} may be updated although the store has not accepted the write`, path: early[0] ? chain(w, early[0].ctx) : [] })
      for (const k of OWED) {
        if (tier && k === 'index') continue
        rep.ob('always', `${o.name}: ${k}, ${label}${hist ? '' : ', history off'}`, !r.out.normal?.may.has(`owe ${k}`), { node: o.fn, fn: o.fn, msg: `may return with the record ${del ? 'deleted' : 'written'} and the ${k} not updated` })
      }
    }
    // what the updates say
    const bad = []
    const stored = new Set([...writes.values()].flatMap(x => x.c.arguments[3] ? origins(w, x.c.arguments[3], x.ctx, { path: ['_v'] }).map(l => w.text(l.expr)) : []))
    for (const { t, ctx, c } of events.values()) {
      if ((t.what === 'cache' || t.what === 'index') && !tier && t.how !== (del ? 'drop' : 'set')) bad.push([c, `${t.what}: a ${del ? 'deleted record is kept' : 'written record is dropped'}`])
      if (t.what === 'cache' && t.how === 'set' && t.value) {
        const v = origins(w, t.value, ctx, { path: ['version'] }).filter(l => l.why !== 'absent')
        if (!v.length || (!tier && v.some(l => !stored.has(w.text(l.expr))))) bad.push([c, `cached under version ${v.map(l => w.text(l.expr)).join('/')}`])
        if (!tier && origins(w, t.value, ctx, { path: ['record'], stop: isEntry }).some(l => isEntry(strip(l.expr)))) bad.push([c, 'the previous record is cached again'])
      }
      const says = t.what === 'listeners' ? origins(w, t.event, ctx, { path: ['action'] }) : t.what === 'sync queue' ? origins(w, t.how, ctx) : []
      if (says.some(l => text(l.expr) !== (del ? 'delete' : 'put'))) bad.push([c, `${t.what} told of ${says.map(l => w.text(l.expr)).join('/')}`])
    }
    rep.ob('right', o.name, !bad.length, { node: bad[0]?.[0] ?? o.fn, fn: o.fn, msg: bad.map(b => b[1]).join('; ') })
  }
  for (const n of ['Collection.put', 'Collection.delete', 'Collection.putAtTier']) if (!direct.some(o => o.name === n)) rep.missing('always', n)
  // ── writes outside: undoing a failed batch ───────────────────────────
  for (const o of recordOps(w)) {
    if (judged.has(o.fn)) continue
    for (const [label, flags, cached] of variants.slice(0, 2)) {
      const raw = []
      const r = recordRun(w, o.fn, {
        rel, assume: assumeFor(flags, cached, true),
        isEvent: n => ts.isCallExpression(n) && !!told(n),
        nonEmpty: e => isDefs(e),
        onCall(c, st, ctx, I, targets) {
          if (targets?.some(t => judged.has(t.fn))) return { st, opaque: true, throwSt: st }
          const t = told(c)
          return t ? { st: clearFacts(st, `owe ${t.what}`), opaque: true, throwSt: null } : undefined
        },
        onStore({ c, op, kind, st, ctx }) {
          if (kind !== 'record' || (op !== 'put' && op !== 'delete')) return { st, opaque: true, throwSt: clearFacts(st, 'owe cache') }
          raw.push({ c, ctx })
          return { st: addMust(st, 'owe cache'), opaque: true, throwSt: st }
        },
        // a refresh that itself fails leaves nothing more to do
        onCatch: (n, st) => st,
        onRaise: (c, st) => clearFacts(st, 'owe cache'),
        onThrow: (s, st) => ts.isNewExpression(strip(s.expression)) ? clearFacts(st, 'owe cache') : st,
      })
      if (raw.length) rep.ob('undone', `${o.name}: ${label}`, !r.out.normal?.may.has('owe cache') && !r.out.throwSt?.may.has('owe cache'), { node: raw[0].c, fn: o.fn, msg: 'a record is written behind the cache, which keeps serving what it held', path: chain(w, raw[0].ctx) })
    }
  }
  // ── filling from the store ───────────────────────────────────────────
  for (const c of w.calls) {
    const t = told(c)
    if (!t || t.what !== 'cache' || t.how !== 'set' || !t.value) continue
    const fn = enclosingFn(c)
    const readHere = e => ts.isCallExpression(e) && storeOp(w, e) === 'get'
    const v = origins(w, t.value, null, { path: ['version'], stop: readHere })
    const reads = v.filter(l => readHere(stripAwait(strip(l.expr))))
    if (!reads.length || reads.length !== v.length) continue
    const k = origins(w, t.key, null).map(l => w.text(l.expr)), g = reads.flatMap(l => origins(w, stripAwait(strip(l.expr)).arguments[2], l.ctx).map(x => w.text(x.expr)))
    rep.ob('fill', w.fnName(fn), k.every(x => g.includes(x)), { node: c, fn, msg: `read under ${g.join('/')} but kept under ${k.join('/')}` })
  }
  rep.atLeast('always', 20)
  rep.atLeast('after', 8)
  return 'Interprets every record write in three memory modes with indexes, sync and listeners present: each update must find the store write done on every path, and every path from the store write to a normal return must pass each update (owed facts).'
}
const text = e => { const x = strip(e); return ts.isStringLiteralLike(x) ? x.text : null }
function paramName(w, l, fn) {
  const d = ts.isParameter(l.expr) ? l.expr : ts.isIdentifier(strip(l.expr)) ? w.declOf(strip(l.expr)) : null
  return d && ts.isParameter(d) && d.parent === fn ? d.name.getText() : null
}
function aboutWrite(w, t, ctx, fn, ownId) {
  return !!t.event && origins(w, t.event, ctx, { path: ['id'] }).some(l => ownId(l, fn))
}
