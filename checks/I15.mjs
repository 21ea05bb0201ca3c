// I15: store wrappers are transparent.
import { ts, strip, stripAwait, storeOp, enclosingFn, walkNodes, isFnLike, addMust, addMay, clearFacts, chain, K } from '../lib/common.mjs'
import { AbsObj } from '../lib/interp.mjs'
import { recordRun } from '../lib/records.mjs'

const OPS = { get: 3, put: 5, delete: 3, list: 2, loadAll: 1, saveAll: 2 }
const READS = ['get', 'list', 'loadAll']

export default async function (w, rep) {
  rep.rule('args', 'a wrapper hands every argument of an operation, the expected version included, unchanged to the wrapped store')
  rep.rule('through', 'in normal service every operation of a wrapper reaches the wrapped store and is waited for')
  rep.rule('result', 'a wrapper returns what the wrapped store returned')
  rep.rule('error', 'an error of the wrapped store reaches the caller')
  rep.rule('cache', 'a cached value is dropped or replaced by every write through the wrapper, and a read that overlaps a write is not cached')
  rep.rule('route', 'what is written through a router is read, listed and deleted where it was written')
  rep.rule('replay', 'writes held back while a route is suspended are replayed in order with all their arguments')
  rep.rule('peer', 'a remote store receives the operation with all its arguments and its answer, conflict included, comes back')

  const methodsOf = h => {
    const out = new Map()
    for (const m of (h.properties ?? h.members ?? [])) {
      const nm = m.name?.getText?.()
      if (!nm) continue
      if (isFnLike(m) && m.body) out.set(nm, m)
      else if (ts.isPropertyAssignment(m)) { const t = w.resolveFnValue(m.initializer, null, {}, 0, new Set()); if (t.length === 1) out.set(nm, t[0].fn) }
      else if (ts.isShorthandPropertyAssignment(m)) { const d = w.checker.getShorthandAssignmentValueSymbol(m)?.valueDeclaration; if (d && isFnLike(d) && d.body) out.set(nm, d); else if (d?.initializer && isFnLike(strip(d.initializer))) out.set(nm, strip(d.initializer)) }
    }
    return out
  }
  const passes = (fn, op, seen = new Set()) => {
    if (seen.has(fn) || !fn.body) return false
    seen.add(fn)
    let y = false
    walkNodes(fn.body, n => { if (!y && ts.isCallExpression(n)) y = storeOp(w, n) === op || w.resolveCall(n, null, { opaqueIface: new Set(['NoydbStore']) }).some(t => passes(t.fn, op, seen)) })
    return y
  }
  const wrappers = []
  for (const h of w.implementers('NoydbStore')) {
    const pkg = w.pkgOf(h.getSourceFile())
    if (!pkg) continue
    const ms = methodsOf(h)
    if (Object.keys(OPS).filter(o => ms.has(o)).length < 6) continue
    const host = enclosingFn(h)
    let factory = host
    for (let f = host; f; f = enclosingFn(f)) if (f.name) factory = f
    const name = w.fnName(factory) || pkg
    if (Object.keys(OPS).filter(o => passes(ms.get(o), o)).length >= 4) wrappers.push({ name, pkg, ms, h, factory })
  }
  rep.count('wrappers', wrappers.length)

  const SENT = { get: ['v', 'c', 'i'], put: ['v', 'c', 'i', { _v: 3, _ts: 'T', _iv: 'I', _data: 'D', _noydb: 1 }, 2], delete: ['v', 'c', 'i'], list: ['v', 'c'], loadAll: ['v'], saveAll: ['v', { c: {} }] }
  const RESULT = { get: { _v: 1, _data: 'R' }, list: ['r'], loadAll: { r: {} } }
  const rel = { set: null }
  function isState(d) { return !!(d.parent.flags & ts.NodeFlags.Let) }
  const box = e => { const d = ts.isIdentifier(strip(e)) ? w.declOf(strip(e)) : null; if (!d || !ts.isVariableDeclaration(d) || !d.initializer) return null; const i = strip(d.initializer); return ts.isNewExpression(i) && /^(Map|Set|WeakMap)$/.test(i.expression.getText()) && !i.arguments?.length || ts.isArrayLiteralExpression(i) && !i.elements.length ? d : null }

  /** Variable of the wrapper that writes count up. */
  const counter = e => { e = strip(e); const d = ts.isIdentifier(e) ? w.declOf(e) : null; return d && ts.isVariableDeclaration(d) && isState(d) && !!enclosingFn(d) && /^number$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(d))) && enclosingFn(d) !== enclosingFn(e) ? d : null }
  /** Values an expression stands for: one, or those of the list it is an element of. */
  const values = (I, e, ctx, added) => {
    const v = I.constEval(e, ctx)
    if (v && v.vals.length === 1) return [v.vals[0]]
    let d = ts.isIdentifier(strip(e)) ? w.declOf(strip(e)) : null, slot = -1
    if (d && ts.isBindingElement(d) && ts.isArrayBindingPattern(d.parent)) { slot = d.parent.elements.indexOf(d); d = d.parent.parent }
    if (d && ts.isVariableDeclaration(d) && ts.isForOfStatement(d.parent.parent)) { const ds = collected(d.parent.parent.expression); return ds.some(x => added?.has(x)) ? ds.flatMap(x => added.get(x) ?? []).map(x => slot >= 0 ? x?.[slot] : x) : [undefined] }
    if (!d || !ts.isParameter(d) || d.parent.parameters[0] !== d) return [undefined]
    let call = d.parent.parent
    while (call && ts.isParenthesizedExpression(call)) call = call.parent
    if (!call || !ts.isCallExpression(call) || !ts.isPropertyAccessExpression(strip(call.expression))) return [undefined]
    let c = ctx
    while (c && c.fn !== enclosingFn(call)) c = c.parent
    const a = I.constEval(strip(call.expression).expression, c)
    if (!a || a.vals.length !== 1 || !Array.isArray(a.vals[0])) {
      const ds = collected(strip(call.expression).expression)
      return ds.some(x => added?.has(x)) ? ds.flatMap(x => added.get(x) ?? []) : [undefined]
    }
    return a.vals[0].map(x => slot >= 0 ? x?.[slot] : x)
  }
  /** The sets and lists whose elements an expression lists. */
  const collected = (e, depth = 0) => {
    e = strip(stripAwait(e))
    if (depth > 6) return []
    if (box(e)) return [box(e)]
    if (ts.isArrayLiteralExpression(e)) return e.elements.flatMap(x => ts.isSpreadElement(x) ? collected(x.expression, depth + 1) : [])
    if (ts.isIdentifier(e)) { const d = w.declOf(e); return d && ts.isVariableDeclaration(d) && d.initializer ? collected(d.initializer, depth + 1) : [] }
    if (ts.isCallExpression(e)) {
      const x = strip(e.expression)
      if (ts.isPropertyAccessExpression(x) && x.name.text === 'from' && e.arguments[0]) return collected(e.arguments[0], depth + 1)
      if (ts.isPropertyAccessExpression(x) && ['values', 'keys'].includes(x.name.text) && box(x.expression)) return [box(x.expression)]
      return w.resolveCall(e, null).flatMap(t => w.returnExprs(t.fn).flatMap(r => collected(r, depth + 1)))
    }
    return []
  }
  function bumps(x) {
    const t = ts.isBinaryExpression(x) && x.operatorToken.kind >= K.FirstAssignment && x.operatorToken.kind <= K.LastAssignment ? x.left : (ts.isPostfixUnaryExpression(x) || ts.isPrefixUnaryExpression(x)) && (x.operator === K.PlusPlusToken || x.operator === K.MinusMinusToken) ? x.operand : null
    return !!t && !!counter(t)
  }
  /** Interprets a wrapper method with the wrapped store answering or failing. */
  const play = (fn, args, { answer = () => undefined, fails = false, fresh = true, assume, onBox, opts } = {}) => {
    const log = [], added = new Map()
    const one = (I, e, ctx) => { const v = e && I.constEval(e, ctx); return v && v.vals.length === 1 ? v.vals[0] : undefined }
    const state = d => d && ts.isVariableDeclaration(d) && isState(d) && enclosingFn(d) && d.initializer && enclosingFn(d) !== fn && !within(d, fn)
    const r = recordRun(w, fn, {
      rel, vals: true, maxDepth: 9, closures: true,
      isEvent: x => (ts.isCallExpression(x) && (ts.isIdentifier(strip(x.expression)) && (d => !!d && ts.isParameter(d))(w.declOf(strip(x.expression))) || ts.isPropertyAccessExpression(strip(x.expression)) && !!box(strip(x.expression).expression))) || bumps(x),
      assume(e, ctx, I) {
        if (ts.isIdentifier(e)) {
          const d = w.declOf(e)
          const i = d ? fn.parameters.indexOf(d) : -1
          if (i >= 0) return { vals: [fn.parameters[i].dotDotDotToken ? args.slice(i) : args[i]] }
          if (fresh && state(d)) { const v = I.constEval(d.initializer, null); if (v && v.vals.length === 1) return v }
        }
        const a = assume?.(e, ctx, I)
        if (a) return a
        if (!ts.isCallExpression(e)) {
          if (fresh && ts.isPropertyAccessExpression(e) && e.name.text === 'size' && box(e.expression)) return { vals: [0] }
          return undefined
        }
        const op = storeOp(w, e)
        if (op) { const v = answer(op, e, ctx, I, one); return v === undefined ? undefined : { vals: [v] } }
        const c = strip(e.expression)
        if (fresh && ts.isPropertyAccessExpression(c) && box(c.expression)) { if (c.name.text === 'has') return { vals: [false] }; if (c.name.text === 'get') return { vals: [undefined] } }
        return undefined
      },
      onRaise: () => null,
      onCall(c, st, ctx, I) {
        const x = ts.isCallExpression(c) ? strip(c.expression) : null
        if (x && ts.isPropertyAccessExpression(x) && box(x.expression)) { const d = box(x.expression); if (['add', 'push'].includes(x.name.text)) { if (!added.has(d)) added.set(d, []); for (const a of c.arguments) added.get(d).push(one(I, a, ctx)) } const s = onBox?.(c, x.name.text, box(x.expression), st, ctx, I, one); return { st: s ?? st, opaque: true, throwSt: null } }
        return undefined
      },
      onAtom: opts?.onAtom,
      onAwait: opts?.onAwait,
      onAssign: opts?.onAssign,
      onStore({ c, op, st, ctx, I }) {
        const x = strip(c.expression)
        for (const on of values(I, x.expression, ctx, added)) log.push({ op, args: c.arguments.map(a => one(I, a, ctx)), on, c, ctx })
        const done = opts?.onStore ? opts.onStore(op, st, c, ctx, I) : st
        if (fails) return { st: null, opaque: true, throwSt: addMust(done, 'failed') }
        return { st: addMust(done, `did ${op}`), opaque: true, throwSt: addMust(done, 'failed') }
      },
    })
    return { log, out: r.out, normal: r.out.normal, throwSt: r.out.throwSt, vals: r.out.vals }
  }
  function within(n, fn) { for (let p = n; p; p = p.parent) if (p === fn) return true; return false }
  const at = (r, fn, op) => { const x = r.log.find(y => y.op === op) ?? r.log[0]; return { node: x?.c ?? fn, fn, path: x ? chain(w, x.ctx) : [] } }

  const routers = wrappers.filter(x => x.ms.has('override') || x.ms.has('suspend'))
  for (const x of wrappers) {
    if (routers.includes(x)) continue
    for (const [op, n] of Object.entries(OPS)) {
      const fn = x.ms.get(op)
      const r = play(fn, SENT[op], { answer: o => RESULT[o] })
      const calls = r.log.filter(y => y.op === op)
      rep.ob('through', `${x.name}.${op}`, calls.length > 0 && !!r.normal?.must.has(`did ${op}`) && r.log.every(y => y.op === op), { ...at(r, fn, op), msg: calls.length ? `may return without having waited for the wrapped ${op}, or does something else as well (${[...new Set(r.log.map(y => y.op))].join(', ')})` : `does not call the wrapped ${op}` })
      for (const y of calls) rep.ob('args', `${x.name}.${op}`, SENT[op].every((v, i) => y.args[i] === v), { node: y.c, fn, path: chain(w, y.ctx), msg: `argument ${SENT[op].findIndex((v, i) => y.args[i] !== v) + 1} of ${n} is dropped or replaced` })
      if (READS.includes(op)) rep.ob('result', `${x.name}.${op}`, r.vals?.length === 1 && r.vals[0] === RESULT[op], { ...at(r, fn, op), msg: 'returns something else than the wrapped store did' })
      if (op === 'get') { const q = play(fn, SENT[op], { answer: () => null }); rep.ob('result', `${x.name}.get of nothing`, q.vals?.length === 1 && q.vals[0] === null, { ...at(q, fn, op), msg: 'an absent record is answered differently' }) }
      const f = play(fn, SENT[op], { fails: true })
      rep.ob('error', `${x.name}.${op}`, !f.normal && !!f.throwSt, { ...at(f, fn, op), msg: 'returns normally although the wrapped store failed' })
    }
  }

  // ── caching wrappers ─────────────────────────────────────────────────
  const envelopes = d => /EncryptedEnvelope/.test(deep(w.checker.getTypeAtLocation(d)))
  function deep(t) { const a = w.checker.getTypeArguments(t) ?? []; return a.map(x => `${w.checker.typeToString(x)} ${x.getProperties().map(p => w.checker.typeToString(w.checker.getTypeOfSymbol(p))).join(' ')}`).join(' ') }
  const K3 = ['v', 'c', 'i']
  for (const x of wrappers) {
    let store = null
    const keyOf = args => {
      let key
      play(x.ms.get('get'), args, { answer: () => null, onBox: (c, name, d, st, ctx, I, one) => { if (envelopes(d) && name === 'get') { store = d; key = one(I, c.arguments[0], ctx) } return st } })
      return key
    }
    if (routers.includes(x)) continue
    const key = keyOf(K3)
    if (!store) continue
    rep.count('caching wrappers', 1)
    const triples = [K3, ['v', 'c', 'j'], ['v', 'd', 'i'], ['u', 'c', 'i'], ['v', 'ci', ''], ['vc', '', 'i'], ['v/c', 'i', ''], ['v', 'c/i', ''], ['v:c', 'i', ''], ['v', 'c:i', '']]
    const keys = triples.map(keyOf)
    rep.ob('cache', `${x.name}: one key per record`, keys.every(k => typeof k === 'string') && new Set(keys).size === keys.length, { node: x.ms.get('get'), fn: x.ms.get('get'), msg: `two records share a cached entry (${keys.map(k => JSON.stringify(k)).join(', ')})` })
    const follow = {
      onAtom: (e, pol, st, ctx, I) => { e = strip(e); if (!pol && ts.isCallExpression(e) && ts.isPropertyAccessExpression(strip(e.expression)) && strip(e.expression).name.text === 'has' && box(strip(e.expression).expression) === store) { const v = (I.I ?? I).constEval?.(e.arguments[0], ctx); return v?.vals.length === 1 && v.vals[0] === key ? addMust(st, 'fresh') : st } if (ts.isBinaryExpression(e) && [K.EqualsEqualsEqualsToken, K.ExclamationEqualsEqualsToken, K.EqualsEqualsToken, K.ExclamationEqualsToken].includes(e.operatorToken.kind) && (counter(e.left) || counter(e.right))) { const same = [K.EqualsEqualsEqualsToken, K.EqualsEqualsToken].includes(e.operatorToken.kind) === pol; return same ? addMust(st, 'checked') : st } return st },
      onAwait: (e, st) => clearFacts(st, 'checked'),
      onAssign: (e, st) => bumps(e) ? addMust(st, 'counted') : st,
      onStore: (op, st) => OPS[op] ? clearFacts(st, 'fresh', 'counted') : st,
    }
    const run = (fn, args, o) => play(fn, args, { fresh: false, ...o, opts: follow, assume: o?.assume, onBox(c, name, d, st, ctx, I, one) {
      if (d !== store) return st
      const k = c.arguments.length ? one(I, c.arguments[0], ctx) : undefined
      if (name === 'clear') return addMust(st, 'fresh')
      if (name === 'delete' && (k === key || o?.all)) return addMust(st, 'fresh')
      if (name === 'set') { o?.onSet?.(c, st, ctx, I, one, k); if (o?.written && k === key) return addMust(st, 'fresh') }
      return st
    } })
    // reading
    {
      const fn = x.ms.get('get'), sets = []
      run(fn, K3, { answer: () => RESULT.get, onSet: (c, st, ctx, I, one, k) => sets.push({ c, ctx, ok: st.must.has('checked') || !st.may.has('did get'), k }) })
      for (const y of sets) { rep.ob('cache', `${x.name}.get keeps only what no write overlapped`, y.ok, { node: y.c, fn, path: chain(w, y.ctx), msg: 'caches what it read although a write may have replaced it while the read was under way' }); rep.ob('cache', `${x.name}.get keeps it under its own key`, y.k === key, { node: y.c, fn, msg: 'caches under another key' }) }
    }
    // writing
    const writes = [['put', SENT.put], ['delete', SENT.delete], ['saveAll', SENT.saveAll]]
    walkNodes(x.h, n => { if ((ts.isMethodDeclaration(n) || ts.isPropertyAssignment(n)) && n.name.getText() === 'tx') { const f = isFnLike(n) ? n : w.resolveFnValue(n.initializer, null, {}, 0, new Set())[0]?.fn; if (f) { x.ms.set('tx', f); writes.push(['tx', [[]]]) } } })
    // an interface method spread from the wrapped store bypasses the cache
    const spread = (x.h.properties ?? []).some(p => ts.isSpreadAssignment(p) && w.typeName(p.expression) === 'NoydbStore')
    if (spread) rep.ob('cache', `${x.name}.tx`, writes.some(y => y[0] === 'tx'), { node: x.h, fn: x.factory, msg: 'transactions of the wrapped store bypass the cache: overwritten values are still served' })
    for (const [op, args] of writes) {
      const fn = x.ms.get(op), sets = []
      for (const fails of [false, true]) {
        const r = run(fn, args, { fails, answer: () => undefined, all: op === 'saveAll' || op === 'tx', written: op === 'put', onSet: (c, st, ctx, I, one, k) => sets.push({ c, ctx, ok: st.must.has('checked') || !st.may.has(`did ${op}`), k }) })
        const end = fails ? r.throwSt : r.normal
        rep.ob('cache', `${x.name}.${op}${fails ? ' that fails' : ''} leaves no old value`, !!end?.must.has('fresh') || (fails && !end), { ...at(r, fn, op), msg: 'a value read before or during the write stays cached' })
        rep.ob('cache', `${x.name}.${op}${fails ? ' that fails' : ''} is noticed by overlapping reads`, !!end && end.must.has('counted'), { ...at(r, fn, op), msg: 'a read under way during the write is not told that it is out of date' })
      }
      for (const y of sets) rep.ob('cache', `${x.name}.${op} keeps only what no other write overlapped`, y.ok && y.k === key, { node: y.c, fn, path: chain(w, y.ctx), msg: 'caches what it wrote although another write may have replaced it meanwhile' })
    }
  }

  // ── routers ──────────────────────────────────────────────────────────
  const S = n => ({ name: n, get: 1, put: 1 })
  const P = S('default'), B = S('blobs'), L = S('large'), M = S('small'), R = S('route'), E = S('vault route'), C = S('cold'), O = S('override')
  const CONFIGS = [
    ['one store', { default: P }],
    ['a blob store', { default: P, blobs: B }],
    ['a blob store with metadata', { default: P, blobs: B, routeBlobMeta: true }],
    ['two blob tiers', { default: P, blobs: { large: L, small: M, threshold: 10 } }],
    ['two blob tiers with metadata', { default: P, blobs: { large: L, small: M, threshold: 10 }, routeBlobMeta: true }],
    ['one blob tier', { default: P, blobs: { large: L, threshold: 10 } }],
    ['a collection route', { default: P, routes: { c: R } }],
    ['a vault route', { default: P, vaultRoutes: { 'eu-': E } }],
    ['a vault route and blob tiers', { default: P, vaultRoutes: { 'eu-': E }, blobs: { large: L, small: M, threshold: 10 } }],
    ['a cold store', { default: P, age: { cold: C, coldAfterDays: 1 } }],
    ['a cold store of some collections', { default: P, age: { cold: C, coldAfterDays: 1, collections: ['c'] } }],
  ]
  for (const x of routers) {
    const optsParam = x.factory.parameters[0]
    const go = (op, cfg, args, o = {}) => play(x.ms.get(op), args, {
      ...o,
      assume(e, ctx, I) {
        if (ts.isIdentifier(e) && w.declOf(e) === optsParam) return { vals: [cfg] }
        if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(strip(e.expression))) {
          const d = box(strip(e.expression).expression), m = strip(e.expression).name.text
          const t = d && w.checker.typeToString(w.checker.getTypeAtLocation(d))
          if (d && o.overridden && /^Map<string, NoydbStore>$/.test(t)) { if (m === 'has') return { vals: [true] }; if (m === 'get') return { vals: [O] } }
          if (d && o.suspended && /^Set<string>$/.test(t) && m === 'has') return { vals: [true] }
          if (d && o.queue && /^Map<string, \{/.test(t) && m === 'get') return { vals: [o.queue] }
        }
        return o.assume?.(e, ctx, I)
      },
    })
    const names = l => [...new Set(l.map(y => y.on?.name ?? '?'))]
    for (const [label, cfg] of CONFIGS) for (const vault of cfg.vaultRoutes ? ['eu-1', 'us'] : ['v']) for (const coll of ['c', 'd', '_blob_chunks', '_blob_index', '_meta']) for (const size of coll === '_blob_chunks' && cfg.blobs ? ['small', 'large'] : ['small']) for (const overridden of [false, true]) {
      if (coll === 'd' && !cfg.age && !cfg.routes) continue
      const where = `${label}: ${coll}${cfg.vaultRoutes ? ` of ${vault}` : ''}${coll === '_blob_chunks' && cfg.blobs ? ` (${size})` : ''}${overridden ? ', overridden' : ''}`
      const env = { _v: 3, _ts: 'T', _iv: 'I', _data: size === 'small' ? 'D' : 'D'.repeat(40), _noydb: 1 }
      const o = { overridden }
      const p = go('put', cfg, [vault, coll, 'i', env, 2], o)
      const written = p.log.filter(y => y.op === 'put'), W = names(written)
      rep.ob('route', `${where}: written once`, W.length === 1 && W[0] !== '?' && !!p.normal?.must.has('did put'), { ...at(p, x.ms.get('put'), 'put'), msg: `a record is written to ${W.join(' and ') || 'no store'}` })
      for (const y of written) rep.ob('args', `${x.name}.put`, [vault, coll, 'i', env, 2].every((v, i) => y.args[i] === v), { node: y.c, fn: x.ms.get('put'), msg: 'an argument is dropped or replaced' })
      const gone = p.log.find((y, i) => y.op === 'delete' && W.includes(y.on?.name ?? '?') && p.log.slice(0, i).some(z => z.op === 'put'))
      rep.ob('route', `${where}: kept`, !gone, { node: gone?.c ?? x.ms.get('put'), fn: x.ms.get('put'), msg: `deletes the record from ${W[0]} after writing it there` })
      const other = p.log.filter(y => y.op === 'delete'), early = other.find(y => p.log.indexOf(y) < p.log.indexOf(written[0]))
      rep.ob('route', `${where}: moved safely`, !early, { node: early?.c ?? x.ms.get('put'), fn: x.ms.get('put'), msg: 'removes the other copy before the new one is stored' })
      const asked = {}
      for (const [op, args] of [['get', [vault, coll, 'i']], ['delete', [vault, coll, 'i']], ['list', [vault, coll]], ['loadAll', [vault]]]) {
        if (op === 'loadAll' && overridden) continue
        const r = go(op, cfg, args, { ...o, answer: q => q === 'get' ? null : q === 'list' ? [] : q === 'loadAll' ? {} : undefined })
        const ys = r.log.filter(y => y.op === op), N = names(ys)
        rep.ob('route', `${where}: ${op}`, W.every(z => N.includes(z)), { ...at(r, x.ms.get(op), op), msg: `written to ${W.join(', ')}, but ${op} asks ${N.join(', ') || 'nobody'}` })
        asked[op] = N
        if (op === 'delete' || op === 'list') rep.ob('route', `${where}: ${op} wherever get looks`, asked.get.every(z => N.includes(z)), { ...at(r, x.ms.get(op), op), msg: `get asks ${asked.get.join(', ')}, but ${op} only ${N.join(', ') || 'nobody'}: ${op === 'delete' ? 'a deleted record is still served' : 'a record that can be read is not listed'}` })
        for (const y of ys) rep.ob('args', `${x.name}.${op}`, args.every((v, i) => y.args[i] === v), { node: y.c, fn: x.ms.get(op), msg: 'an argument is dropped or replaced' })
        // found where it was written
        if (op === 'get') {
          const f = go('get', cfg, args, { ...o, answer: (q, e, ctx, I, one) => q === 'get' ? (one(I, strip(e.expression).expression, ctx)?.name === W[0] ? RESULT.get : null) : undefined })
          rep.ob('result', `${where}: get`, f.vals?.length === 1 && f.vals[0] === RESULT.get, { ...at(f, x.ms.get('get'), 'get'), msg: 'does not return the record from where it was written' })
        }
      }
    }
    for (const op of ['get', 'delete', 'list', 'loadAll', 'put', 'saveAll']) for (const [label, cfg] of CONFIGS) {
      const args = { get: ['v', 'c', 'i'], delete: ['v', 'c', 'i'], list: ['v', 'c'], loadAll: ['v'], put: ['v', 'c', 'i', SENT.put[3], 2], saveAll: ['v', { c: {} }] }[op]
      const r = go(op, cfg, args, { fails: true, answer: () => undefined })
      rep.ob('error', `${x.name}.${op} with ${label}`, !!r.throwSt && !r.normal?.may.has('failed'), { ...at(r, x.ms.get(op), op), msg: 'returns normally although a store failed' })
    }
  }
  /** The value of an expression with object literals spelt out. */
  const plain = (I, e, ctx, depth = 0) => {
    e = strip(stripAwait(e))
    let v = ts.isObjectLiteralExpression(e) ? new AbsObj(e, ctx) : undefined
    if (!v) { const r = I.constEval(e, ctx); if (!r || r.vals.length !== 1) return undefined; v = r.vals[0] }
    if (!(v instanceof AbsObj) || depth > 3) return v
    const out = {}, names = new Set()
    walkNodes(v.lit, n => { if (n.name && (ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n))) names.add(n.name.text ?? n.name.getText()) })
    for (const n of names) {
      const own = v.lit.properties.find(q => ts.isPropertyAssignment(q) && q.name.getText() === n)
      const x = own && ts.isObjectLiteralExpression(strip(own.initializer)) ? plain(I, own.initializer, v.ctx, depth + 1) : (r => r?.vals.length === 1 ? r.vals[0] : undefined)(v.get(n, I, 0))
      if (x !== undefined) out[n] = x instanceof AbsObj ? plain(I, x.lit, x.ctx, depth + 1) : x
    }
    return out
  }
  const has = (o, v) => o === v || (!!o && typeof o === 'object' && Object.values(o).some(x => x === v || (Array.isArray(x) && x.includes(v))))

  // ── writes held back ─────────────────────────────────────────────────
  for (const x of routers) {
    const opt = x.factory.parameters[0], cfg = { default: P }
    const held = (fn, args, queue) => {
      const log = [], pushed = []
      recordRun(w, fn, {
        rel, vals: true, maxDepth: 9, closures: true,
        isEvent: n => ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && strip(n.expression).name.text === 'push',
        assume(e) {
          if (ts.isIdentifier(e)) { const d = w.declOf(e); const i = d ? fn.parameters.indexOf(d) : -1; if (i >= 0) return { vals: [args[i]] }; if (d && d === opt) return { vals: [cfg] } }
          if (!ts.isCallExpression(e) || !ts.isPropertyAccessExpression(strip(e.expression))) return undefined
          const d = box(strip(e.expression).expression), m = strip(e.expression).name.text
          if (!d) return undefined
          const stores = /NoydbStore/.test(w.checker.typeToString(w.checker.getTypeAtLocation(d)))
          return m === 'has' ? { vals: [!stores] } : m === 'get' ? { vals: [stores ? undefined : queue] } : undefined
        },
        onRaise: () => null,
        onCall(c, st, ctx, I) { const y = ts.isCallExpression(c) ? strip(c.expression) : null; if (!y || !ts.isPropertyAccessExpression(y) || y.name.text !== 'push') return undefined; pushed.push({ c, v: plain(I, c.arguments[0], ctx) }); return { st, opaque: true, throwSt: null } },
        onStore({ c, op, st, ctx, I }) { const one = e => { const v = I.constEval(e, ctx); return v && v.vals.length === 1 ? v.vals[0] : undefined }; log.push({ op, c, on: one(strip(c.expression).expression), args: c.arguments.map(one) }); return { st, opaque: true, throwSt: null } },
      })
      return { log, pushed }
    }
    const items = []
    for (const [op, args] of [['put', SENT.put], ['delete', SENT.delete]]) {
      const fn = x.ms.get(op)
      const r = held(fn, args, { writes: [], maxSize: 10 })
      rep.ob('replay', `${op} while suspended`, !r.log.length && r.pushed.length === 1 && args.every(a => has(r.pushed[0].v, a)), { node: r.pushed[0]?.c ?? r.log[0]?.c ?? fn, fn, msg: r.log.length ? 'reaches the suspended store' : r.pushed.length !== 1 ? 'is not queued exactly once' : 'is queued without all of its arguments' })
      if (r.pushed.length) items.push([op, args, r.pushed[0].v])
    }
    const fn = x.ms.get('resume')
    const sent = seq => held(fn, ['default'], { writes: seq.map(i => i[2]), maxSize: 10 }).log
    for (const i of items) { const l = sent([i]); rep.ob('replay', `${i[0]} on resume`, l.length > 0 && l.every(y => y.op === i[0] && y.on === P && i[1].every((a, k) => y.args[k] === a)), { node: l[0]?.c ?? fn, fn, msg: 'a queued write is not replayed as it was made' }) }
    for (const seq of [items, [...items].reverse()]) { const l = sent(seq); rep.ob('replay', `${seq.map(i => i[0]).join(' then ')} on resume`, l.map(y => y.op).join() === seq.map(i => i[0]).join(), { node: l[0]?.c ?? fn, fn, msg: `queued writes are replayed as ${l.map(y => y.op).join(', ') || 'nothing'}` }) }
  }

  // ── a store served to a peer ─────────────────────────────────────────
  // What the client sends is handed to the serving side, and its answer back.
  {
    const on = (c, name) => { const x = strip(c.expression); return ts.isPropertyAccessExpression(x) && x.name.text === name && /Channel/.test(w.typeName(x.expression) ?? '') }
    const json = (c, m) => { const x = strip(c.expression); return ts.isPropertyAccessExpression(x) && x.name.text === m && x.expression.getText() === 'JSON' }
    const listeners = w.calls.filter(c => on(c, 'on') && c.arguments[0] && ts.isStringLiteralLike(strip(c.arguments[0])) && strip(c.arguments[0]).text === 'message').map(c => w.resolveFnValue(c.arguments[1], null, {}, 0, new Set())[0]?.fn).filter(Boolean)
    const talk = (fn, args, { message, assume, fails } = {}) => {
      const sent = [], log = [], settled = [], set = []
      const r = recordRun(w, fn, {
        rel, vals: true, maxDepth: 12, closures: true,
        isEvent: n => ts.isCallExpression(n) && (on(n, 'send') || settles(n)) || ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && ts.isPropertyAccessExpression(strip(n.left)) && ['name', 'version'].includes(strip(n.left).name.text),
        assume(e, ctx, I) {
          const i = ts.isIdentifier(e) && w.declOf(e) ? fn.parameters.indexOf(w.declOf(e)) : -1
          if (i >= 0 && args) return { vals: [fn.parameters[i].dotDotDotToken ? args.slice(i) : args[i]] }
          if (ts.isCallExpression(e) && json(e, 'parse') && message) return { vals: [message] }
          if (ts.isCallExpression(e) && storeOp(w, e)) return { vals: [RESULT[storeOp(w, e)]] }
          if (ts.isPropertyAccessExpression(e) && e.name.text === 'isOpen') return { vals: [true] }
          if (unset(e)) return { vals: [undefined] }
          return assume?.(e, ctx, I)
        },
        onRaise: () => null,
        onCall(c, st, ctx, I) {
          if (!ts.isCallExpression(c)) return undefined
          if (on(c, 'send')) { const a = strip(c.arguments[0]); const l = ts.isCallExpression(a) && json(a, 'stringify') ? a.arguments[0] : a; sent.push({ c, v: plain(I, l, ctx), ctx }); return { st: addMust(st, 'sent'), opaque: true, throwSt: null } }
          if (settles(c)) { settled.push({ c, how: strip(c.expression).name.text, v: c.arguments[0] && plain(I, c.arguments[0], ctx), names: [...st.must] }); return { st: addMust(st, strip(c.expression).name.text), opaque: true, throwSt: null } }
          return undefined
        },
        onAssign(e, st, ctx, I) { const l = strip(e.left ?? e); if (ts.isPropertyAccessExpression(l) && ['name', 'version'].includes(l.name.text) && e.right) { const v = I.constEval(e.right, ctx); set.push({ n: l.name.text, v: v?.vals.length === 1 ? v.vals[0] : '?' }); return addMust(st, `set ${l.name.text}=${v?.vals.length === 1 ? v.vals[0] : '?'}`) } return st },
        onStore({ c, op, st, ctx, I }) { log.push({ op, c, args: c.arguments.map(a => plain(I, a, ctx)) }); return fails ? { st: null, opaque: true, throwSt: addMust(st, 'failed') } : { st: addMust(st, `did ${op}`), opaque: true, throwSt: null } },
      })
      return { sent, log, settled, set, out: r.out, r }
    }
    /** An optional setting that was not given. */
    function unset(e) {
      const d = ts.isIdentifier(e) ? w.declOf(e) : null
      const [from, name] = ts.isPropertyAccessExpression(e) ? [e.expression, e.name.text] : d && ts.isBindingElement(d) && ts.isObjectBindingPattern(d.parent) && ts.isVariableDeclaration(d.parent.parent) && d.parent.parent.initializer ? [d.parent.parent.initializer, (d.propertyName ?? d.name).getText()] : []
      if (!from || !/Options$/.test(w.typeName(from) ?? '')) return false
      const p = w.checker.getTypeAtLocation(from).getProperty(name)
      return !!p && !!(p.flags & ts.SymbolFlags.Optional)
    }
    function settles(n) { const x = strip(n.expression); return ts.isPropertyAccessExpression(x) && ['resolve', 'reject'].includes(x.name.text) && x.expression.getText() !== 'Promise' }
    const clients = []
    for (const h of w.implementers('NoydbStore')) { const ms = methodsOf(h); if (Object.keys(OPS).every(o => ms.has(o)) && /by-peer/.test(w.pkgOf(h.getSourceFile()) ?? '')) clients.push(ms) }
    for (const ms of clients) for (const [op, args] of Object.entries(SENT)) {
      const fn = ms.get(op)
      const a = talk(fn, args)
      rep.ob('peer', `${op}: sent`, a.sent.length === 1 && args.every(x => has(a.sent[0].v, x)), { node: a.sent[0]?.c ?? fn, fn, msg: a.sent.length ? 'the request lacks an argument' : 'no request is sent' })
      if (!a.sent.length || !a.sent[0].v) continue
      const message = { ...a.sent[0].v, id: 'ID' }
      for (const fails of [false, true]) {
        const err = { name: 'ConflictError', message: 'conflict', version: 7 }
        const served = listeners.map(l => [l, talk(l, undefined, { message, fails, assume: e => ts.isIdentifier(e) && caught(e) ? { vals: [err] } : undefined })]).filter(y => y[1].log.length)
        const [l, b] = served[0] ?? [fn, null]
        if (!fails) rep.ob('peer', `${op}: served`, !!b && b.log.every(y => y.op === op && args.every((v, i) => y.args[i] === v)), { node: b?.log[0]?.c ?? l, fn: l, msg: b ? `the serving side calls ${b.log.map(y => y.op).join(', ')} with other arguments` : 'the serving side does not perform it' })
        const ans = b?.sent.filter(y => y.v) ?? []
        if (!b) continue
        rep.ob('peer', `${op}: answered${fails ? ' with the error' : ''}`, ans.length > 0 && ans.every(y => y.v.id === 'ID') && (fails ? ans.every(y => has(y.v, 7) || Object.values(y.v).some(z => has(z, 7))) && ans.every(y => Object.values(y.v).some(z => has(z, 'ConflictError'))) : !READS.includes(op) || ans.every(y => has(y.v, RESULT[op]))), { node: ans[0]?.c ?? l, fn: l, msg: fails ? 'the answer lacks the name or the version of the conflict' : 'the answer lacks the result or does not name the request' })
        for (const y of ans) {
          const took = listeners.map(k => [k, talk(k, undefined, { message: y.v })]).filter(z => z[1].settled.length)
          const [k, c] = took[0] ?? [fn, null]
          const st = c?.settled ?? []
          rep.ob('peer', `${op}: ${fails ? 'the error comes back' : 'the result comes back'}`, st.length > 0 && (fails ? st.every(z => z.how === 'reject' && z.names.includes('set name=ConflictError') && z.names.includes('set version=7')) : st.every(z => z.how === 'resolve' && (!READS.includes(op) || z.v === RESULT[op]))), { node: st[0]?.c ?? k, fn: k, msg: st.length ? 'what the serving side answered is not what the caller gets' : 'the answer is not taken' })
        }
      }
      // the caller sees a conflict as a conflict
      const remote = { name: 'ConflictError', message: 'conflict', version: 7 }
      const ask = n => ts.isCallExpression(n) && w.resolveCall(n, null).some(t => sends(t.fn))
      const answered = {}
      const over = fails => recordRun(w, fn, {
        rel, vals: true, maxDepth: 6, closures: true,
        isEvent: n => ask(n) || ts.isNewExpression(n),
        assume: e => ts.isIdentifier(e) && caught(e) ? { vals: [remote] } : ask(e) ? { vals: [answered] } : undefined,
        onRaise: () => null,
        onCall(c, st, ctx, I) {
          if (ask(c)) return { st: fails ? null : addMust(st, 'asked'), opaque: true, throwSt: fails ? st : null }
          if (ts.isNewExpression(c) && c.expression.getText() === 'ConflictError') { const v = c.arguments?.[0] && I.constEval(c.arguments[0], ctx); return { st: v?.vals.length === 1 && v.vals[0] === 7 ? addMust(st, 'conflict') : st, opaque: true, throwSt: null } }
          return undefined
        },
      }).out
      const no = over(true), yes = over(false)
      rep.ob('peer', `${op}: a conflict is raised as one`, !no.normal && !!no.throwSt?.must.has('conflict'), { node: fn, fn, msg: 'a conflict reported by the peer reaches the caller as something else' })
      rep.ob('peer', `${op}: waits for the peer`, !!yes.normal?.must.has('asked') && (!READS.includes(op) || yes.vals?.length === 1 && yes.vals[0] === answered), { node: fn, fn, msg: 'returns something else than the peer answered' })
    }
    /** Puts a message on a channel and waits for what comes back. */
    function sends(f) { let y = false; if (f.body) walkNodes(f.body, n => { if (ts.isCallExpression(n) && on(n, 'send')) y = true }); return y }
    function caught(e) { const d = w.declOf(e); if (!d) return false; if (ts.isVariableDeclaration(d) && ts.isCatchClause(d.parent)) return true; const i = ts.isVariableDeclaration(d) && d.initializer && strip(d.initializer); return !!i && ts.isIdentifier(i) && caught(i) }
    rep.count('peer listeners', listeners.length)
  }
  rep.atLeast('args', 24); rep.atLeast('through', 24); rep.atLeast('error', 24); rep.atLeast('result', 12); rep.atLeast('cache', 8); rep.atLeast('route', 60); rep.atLeast('replay', 4); rep.atLeast('peer', 20)
  rep.assumptions.push('retries, timeouts, circuit breaking and health checks are the documented degraded modes; a router replays held-back writes on a best-effort basis as documented; messages between peers arrive in order and unchanged (the channel)')
  return 'every wrapper of the store contract is found by its operations passing to the same operation of another store; each is interpreted with the wrapped store answering and failing; caching wrappers are followed through reads, writes and their overlaps; routers are evaluated for a table of settings, collections, sizes and overrides and must read, list and delete where they write; what a peer client sends is handed to the serving side and its answer back'
}
