// I07: a multi-record transaction applies as a whole or is undone.
import { ts, strip, stripAwait, origins, storeOp, publicApi, enclosingFn, addMust, chain, thrownClass } from '../lib/common.mjs'
import { directOps, recordOps, recordRun, allOn } from '../lib/records.mjs'

const env = (v, tag) => ({ _noydb: 1, _v: v, _ts: 't', _iv: 'i', _data: tag })
export default async function (w, rep) {
  rep.rule('body', 'nothing is written before the body of the transaction returned')
  rep.rule('stage', 'staging an operation writes nothing')
  rep.rule('check', 'every expected version is compared with what is stored before the first write, and a mismatch refuses the whole')
  rep.rule('apply', 'every staged operation is performed once, in order, when all versions match')
  rep.rule('undo', 'when an operation fails, it and every operation before it is put back, last first, to what was stored before')
  rep.rule('error', 'the caller receives the error that stopped the transaction, also when undoing fails')

  const rel = {}
  const direct = directOps(w)
  const judged = new Map(direct.map(o => [o.fn, o.name.replace(/^.*\./, '')]))
  const elem = e => { const t = w.checker.getTypeAtLocation(e); return w.checker.isArrayType(t) || w.checker.isTupleType(t) || /^(readonly |ReadonlyArray)/.test(w.checker.typeToString(t)) ? w.checker.getTypeArguments(t)[0] : null }
  const isOps = e => { const t = elem(e); return !!t && !!t.getProperty('id') && !!t.getProperty('expectedVersion') }
  const caught = x => { const d = ts.isIdentifier(strip(x)) ? w.declOf(strip(x)) : null; return !!d && ts.isVariableDeclaration(d) && ts.isCatchClause(d.parent) && !inCatch(d.parent.parent) }
  const inCatch = n => { for (n = n.parent; n && !ts.isSourceFile(n) && !ts.isFunctionDeclaration(n) && !ts.isMethodDeclaration(n); n = n.parent) if (ts.isCatchClause(n)) return true; return false }
  const key = (v, c, i) => `${v}/${c}/${i}`
  /** One deterministic run; log of what happened in order. */
  const play = (fn, { list, entries, stored, failAt, undoFails }) => {
    const log = [], notes = { unknown: null, wrongThrow: null, conflict: false }
    const maps = new Map()
    const one = (I, e, ctx) => { const v = e && I.constEval(e, ctx); return v?.vals.length === 1 ? v.vals[0] : undefined }
    const slot = (I, c, ctx) => { const f = strip(c.expression); if (!ts.isPropertyAccessExpression(f) || !ts.isIdentifier(strip(f.expression))) return null; const d = w.declOf(strip(f.expression)); if (!d || !/Map</.test(w.checker.typeToString(w.checker.getTypeAtLocation(f.expression)))) return null; const m = maps.get(d) ?? new Map(); maps.set(d, m); return { m, name: f.name.text } }
    const base = allOn(w, {})
    let n = 0
    const where = (I, c, ctx) => key(one(I, c.arguments[0], ctx) ?? 'V', one(I, c.arguments[1], ctx) ?? 'c', one(I, c.arguments[2], ctx) ?? '?')
    const r = recordRun(w, fn, {
      rel, vals: true, maxDepth: 9,
      assume(e, ctx, I) {
        if (ts.isIdentifier(e)) {
          const d = w.declOf(e)
          if (d && ts.isParameter(d) && d.parent === fn && entries && elem(e)) return { vals: [entries] }
        }
        if (ts.isPropertyAccessExpression(e)) {
          if (e.name.text === 'atomic') return { vals: [true] }
          const own = w.memberName(e)
          if (own === 'Collection.name' || own === 'Collection.vault') {
            let x = ctx
            while (x && !(x.call && ts.isCallExpression(x.call) && w.typeName(strip(x.call.expression).expression ?? x.call) === 'Collection' && strip(x.call.expression).expression.kind !== ts.SyntaxKind.ThisKeyword)) x = x.parent
            const at = x ? place(I, strip(x.call.expression).expression, x.parent) : 'V/c'
            return { vals: [at.split('/')[own === 'Collection.name' ? 1 : 0]] }
          }
          if (w.memberName(e) === 'Collection.hydrated') return { vals: [true] }
          if (w.memberName(e) === 'Collection.lazy') return { vals: [false] }
          if (list && isOps(e)) return { vals: [list] }
          if (list && e.name.text === 'length' && isOps(e.expression)) return { vals: [list.length] }
        }
        if (ts.isTypeOfExpression(e) && !entries && ts.isIdentifier(strip(e.expression)) && w.declOf(strip(e.expression))?.parent === fn) return { vals: ['function'] }
        if (ts.isCallExpression(e)) {
          if (storeOp(w, e) === 'get') { const k = where(I, e, ctx); return { vals: [I.curSt?.must.has('failed') || I.curSt?.must.has(`did ${k}`) ? env(9, `new ${k}`) : stored[k] ?? null] } }
          const s = slot(I, e, ctx)
          if (s && (s.name === 'get' || s.name === 'has')) { const k = one(I, e.arguments[0], ctx); if (k === undefined) return undefined; return { vals: [s.name === 'has' ? s.m.has(k) : s.m.get(k)] } }
        }
        return base(e, ctx, I)
      },
      isEvent: n => ts.isCallExpression(n) && (/^(set)$/.test(strip(n.expression).name?.text ?? '') || isBody(n)),
      onRaise: () => null,
      onThrow(s, st) {
        if (st.must.has('failed')) { if (!origins(w, s.expression, null).every(l => caught(l.expr))) notes.wrongThrow = s }
        else if (thrownClass(w, s) === 'ConflictError') notes.conflict = true
        return st
      },
      onCall(c, st, ctx, I, targets) {
        if (!ts.isCallExpression(c)) return undefined
        if (isBody(c)) { log.push({ k: 'body' }); return { st, opaque: true, throwSt: null } }
        const t = targets?.find(x => judged.has(x.fn))
        if (t) {
          const recv = strip(c.expression).expression
          const id = one(I, c.arguments[0], ctx)
          const at = recv && recv.kind !== ts.SyntaxKind.ThisKeyword ? place(I, recv, ctx) : 'V/c'
          const i = n++
          log.push({ k: 'do', op: judged.get(t.fn), at: `${at}/${id}`, c, ctx, awaited: I.isAwaited(c) })
          if (i === failAt) return { st: null, opaque: true, throwSt: addMust(st, 'failed') }
          return { st: addMust(st, `did ${at}/${id}`), opaque: true, throwSt: null }
        }
        const s = slot(I, c, ctx)
        if (s?.name === 'set') { const k = one(I, c.arguments[0], ctx); if (k !== undefined) s.m.set(k, one(I, c.arguments[1], ctx) ?? null); return { st, opaque: true, throwSt: null } }
        if (/^(Vault|Collection)$/.test(w.typeName(c)) && !storeOp(w, c)) return { st, opaque: true, throwSt: null }
        if (/^(Promise<.*>|void|T)$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(c))) && targets?.some(x => /refresh|index|decrypt|hydrat/i.test(w.fnName(x.fn)))) return { st, opaque: true, throwSt: null }
        return undefined
      },
      onStore({ c, op, kind, st, ctx, I }) {
        if (op === 'get') { log.push({ k: 'read', at: where(I, c, ctx) }); return { st, opaque: true, throwSt: null } }
        if (kind === 'record' && (op === 'put' || op === 'delete')) {
          const v = op === 'put' ? one(I, c.arguments[3], ctx) : null
          log.push({ k: st.must.has('failed') ? 'undo' : 'raw', at: where(I, c, ctx), v: v === undefined && op === 'put' ? (origins(w, c.arguments[3], ctx, { stop: e => storeOp(w, e) === 'get' }).every(l => storeOp(w, stripAwait(strip(l.expr))) === 'get') ? 'read' : 'unknown') : v?._data ?? null, c, ctx })
          if (undoFails !== undefined && st.must.has('failed') && log.filter(x => x.k === 'undo').length - 1 === undoFails) return { st: null, opaque: true, throwSt: st }
        }
        return { st, opaque: true, throwSt: null }
      },
    })
    return { log, ...notes, normal: !!r.out.normal, throws: !!r.out.throwSt }
    function isBody(c) {
      const f = strip(c.expression)
      if (!ts.isIdentifier(f)) return false
      const d = w.declOf(f)
      return !!d && ts.isParameter(d) && c.arguments.length === 1 && w.typeName(c.arguments[0]) === 'TxContext'
    }
    function place(I, recv, ctx) {
      const r = I.deref(recv, ctx)
      const x = r && stripAwait(strip(r.expr))
      if (!x || !ts.isCallExpression(x)) return '?'
      const coll = one(I, x.arguments[0], r.ctx)
      const v = strip(x.expression).expression && I.deref(strip(x.expression).expression, r.ctx)
      const vx = v && stripAwait(strip(v.expr))
      return `${vx && ts.isCallExpression(vx) ? one(I, vx.arguments[0], v.ctx) : '?'}/${coll}`
    }
  }
  const P = (at, type, ev) => { const [vaultName, collectionName, id] = at.split('/'); return { type, vaultName, collectionName, id, record: { n: 1 }, ...(ev !== undefined ? { expectedVersion: ev } : {}) } }
  const subjects = []
  for (const [fn, name] of publicApi(w).fns) {
    if (w.pkgOf(fn) !== 'hub' || !fn.body) continue
    if (name === 'Noydb.transaction') subjects.push({ fn, name, mk: ops => ({ list: ops }), multi: true, deletes: true })
    if (name === 'Collection.putMany') subjects.push({ fn, name: 'Collection.putMany (atomic)', mk: ops => ({ entries: ops.map(o => [o.id, o.record, o.expectedVersion !== undefined ? { expectedVersion: o.expectedVersion } : undefined]) }) })
  }
  for (const n of ['Noydb.transaction', 'Collection.putMany (atomic)']) if (!subjects.some(s => s.name === n)) rep.missing('apply', n)
  const show = l => l.map(x => `${x.k}${x.op ? ' ' + x.op : ''} ${x.at ?? ''}${x.k === 'undo' ? ` to ${x.v ?? 'absent'}` : ''}`.trim()).join(', ') || 'nothing'
  for (const s of subjects) {
    const D = s.deletes ? 'delete' : 'put'
    const stored = { 'V/c/a': env(3, 'old V/c/a'), 'V/c/b': env(5, 'old V/c/b') }
    if (s.multi) Object.assign(stored, { 'V/d/a': env(7, 'old V/d/a'), 'W/c/a': env(8, 'old W/c/a') })
    const ops = [P('V/c/a', 'put'), P('V/c/b', D), P('V/c/n', 'put')]
    const site = (r, k) => r.log.find(x => x.k === k && x.c)
    const ob = (rule, label, ok, r, msg, k = 'do') => { const x = site(r, k); rep.ob(rule, `${s.name}: ${label}`, ok, { node: x?.c ?? s.fn, fn: s.fn, msg: `${msg}; sequence: ${show(r.log.filter(y => y.k !== 'read'))}`, path: x ? chain(w, x.ctx) : [] }) }
    // all match
    for (const [label, list, fine] of [
      ['no expectations', ops, true],
      ['all as expected', [P('V/c/a', 'put', 3), P('V/c/b', D, 5), P('V/c/n', 'put', 0)], true],
      ['first differs', [P('V/c/a', 'put', 2), P('V/c/b', D, 5)], false],
      ['last differs', [P('V/c/a', 'put', 3), P('V/c/b', D, 5), P('V/c/n', 'put', 1)], false],
      ['newer than expected', [P('V/c/a', 'put'), P('V/c/b', D, 4)], false],
      ['expected absent but stored', [P('V/c/n', 'put'), P('V/c/a', 'put', 0)], false],
      ['second use of a record differs', [P('V/c/a', 'put', 3), P('V/c/a', 'put', 4)], false],
      ...(s.multi ? [['same id in another collection differs', [P('V/c/a', 'put', 3), P('V/d/a', 'put', 3)], false], ['same id in another vault', [P('V/c/a', 'put', 3), P('W/c/a', 'put', 8)], true]] : []),
    ]) {
      const r = play(s.fn, { ...s.mk(list), stored })
      const done = r.log.filter(x => x.k === 'do').map(x => `${x.op} ${x.at}`)
      const want = fine ? list.map(o => `${o.type} ${o.vaultName}/${o.collectionName}/${o.id}`) : []
      const writes = r.log.filter(x => x.k === 'raw' || x.k === 'undo')
      if (fine) ob('apply', label, done.join() === want.join() && !writes.length && r.normal && r.log.every(x => x.k !== 'do' || x.awaited), r, `expected ${want.join(', ')}`)
      else ob('check', label, !done.length && !writes.length && !r.normal && r.conflict, r, 'a stale expected version must refuse the whole before anything is written')
      if (fine && s.multi) { const b = r.log.findIndex(x => x.k === 'body'), d = r.log.findIndex(x => x.k === 'do' || x.k === 'raw'); ob('body', label, b >= 0 && d > b && r.log.filter(x => x.k === 'body').length === 1, r, 'the body must have returned before the first write') }
    }
    // failures
    const rows = [['first fails', ops, 0], ['second fails', ops, 1], ['third fails', ops, 2], ['after writing one record twice', [P('V/c/a', 'put'), P('V/c/a', D), P('V/c/b', 'put')], 2], ...(s.multi ? [['same id elsewhere', [P('V/c/a', 'put'), P('V/d/a', 'put'), P('W/c/a', 'put')], 2]] : [])]
    for (const [label, list, failAt] of rows) {
      const r = play(s.fn, { ...s.mk(list), stored, failAt })
      const und = r.log.filter(x => x.k === 'undo')
      const want = list.slice(0, failAt + 1).map(o => key(o.vaultName, o.collectionName, o.id)).reverse()
      const lastWrite = new Map(und.map(x => [x.at, x.v]))
      const content = [...lastWrite].every(([at, v]) => v === 'read' || v === (stored[at]?._data ?? null))
      const first = []; for (const x of want) if (!first.includes(x)) first.push(x)
      const got = []; for (const x of und) if (!got.includes(x.at)) got.push(x.at)
      ob('undo', label, got.join() === first.join() && content && r.log.filter(x => x.k === 'do').length === failAt + 1, r, `expected ${first.map(x => `${x} back to ${stored[x]?._data ?? 'absent'}`).join(', ')}`, 'undo')
      rep.ob('error', `${s.name}: ${label}`, !r.normal && r.throws && !r.wrongThrow, { node: r.wrongThrow ?? s.fn, fn: s.fn, msg: 'the failure is hidden or replaced by another error' })
    }
    for (const k of [0, 1]) {
      const r = play(s.fn, { ...s.mk(ops), stored, failAt: 2, undoFails: k })
      const und = r.log.filter(x => x.k === 'undo')
      ob('undo', `undoing ${['the last', 'the second'][k]} fails`, new Set(und.map(x => x.at)).size === 3, r, 'the remaining operations must still be put back', 'undo')
      rep.ob('error', `${s.name}: undoing ${['the last', 'the second'][k]} fails`, !r.normal && r.throws && !r.wrongThrow, { node: r.wrongThrow ?? s.fn, fn: s.fn, msg: 'a failure while undoing hides the original error' })
    }
  }
  // staging
  for (const [fn, name] of publicApi(w).fns) if (/^Tx(Collection|Vault|Context)\./.test(name) && fn.body) {
    const h = recordRun(w, fn, { rel }).hits.find(x => x.kind === 'record' && ['put', 'delete', 'saveAll', 'tx'].includes(x.op))
    rep.ob('stage', name, !h, { node: h?.c ?? fn, fn, msg: 'writes to the store while the transaction is still being described', path: h ? chain(w, h.ctx) : [] })
  }
  rep.atLeast('undo', 8); rep.atLeast('check', 6); rep.atLeast('apply', 3)
  return 'Interprets the transaction executor and the atomic bulk write on concrete staged lists and stored versions, operation by operation, with every position of failure and a failing undo, and compares the sequence of writes with the documented one.'
}
