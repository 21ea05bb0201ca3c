// I11: sync never loses or silently overwrites a change.
import { ts, strip, stripAwait, storeOp, enclosingFn, walkNodes, isFnLike, addMust, addMay, clearFacts, chain, K } from '../lib/common.mjs'
import { AbsObj } from '../lib/interp.mjs'
import { recordRun } from '../lib/records.mjs'

export default async function (w, rep) {
  rep.rule('queue', 'an entry leaves the queue only when the remote store has accepted that very entry; a change queued meanwhile stays')
  rep.rule('expect', 'every record a sync writes carries the version it expects to replace')
  rep.rule('base', 'a change queued over one that was not pushed yet still expects the version the remote store is known to hold')
  rep.rule('resolve', 'every conflict is put to the configured resolver, and what it keeps is written to the sides that lack it')
  rep.rule('report', 'a failed write or an unresolved conflict is part of the result')
  rep.rule('track', 'a local change is queued and the queue persisted before the change counts as tracked')
  rep.rule('load', 'loading the persisted queue never replaces changes queued meanwhile')
  rep.rule('own queue', 'each sync target persists its queue under its own key')

  // the class that keeps a queue of changes between two stores
  const engines = []
  for (const c of [...w.classes.values()].flat()) {
    const queue = c.members.find(m => ts.isPropertyDeclaration(m) && /^(readonly )?DirtyEntry\[\]$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(m))))
    if (queue) engines.push({ c, queue: queue.name.getText() })
  }
  if (!engines.length) { rep.missing('queue', 'a class holding a queue of DirtyEntry'); return 'no sync engine' }
  const LOCALS = { side: 'local' }, REMOTES = { side: 'remote' }

  for (const { c: cls, queue } of engines) {
    const side = new Map()
    for (const m of cls.members) if (ts.isConstructorDeclaration(m) && m.body) walkNodes(m.body, n => {
      if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && ts.isPropertyAccessExpression(n.left) && n.left.expression.kind === K.ThisKeyword) {
        const r = strip(n.right), nm = ts.isPropertyAccessExpression(r) ? r.name.text : ts.isIdentifier(r) ? r.text : ''
        if (nm === 'local' || nm === 'remote') side.set(n.left.name.text, nm === 'local' ? LOCALS : REMOTES)
      }
    })
    if (new Set(side.values()).size < 2) rep.missing('queue', `${cls.name?.text}: its local and remote store`)
    const isQueue = e => { e = strip(e); return ts.isPropertyAccessExpression(e) && e.expression.kind === K.ThisKeyword && e.name.text === queue && enclosingClass(e) === cls }
    function enclosingClass(n) { for (let p = n; p; p = p.parent) if (ts.isClassLike(p)) return p; return null }
    const methods = cls.members.filter(m => ts.isMethodDeclaration(m) && m.body)
    const returns = (m, t) => new RegExp(`Promise<${t}>`).test(w.checker.typeToString(w.checker.getReturnTypeOfSignature(w.checker.getSignatureFromDeclaration(m))))
    const pushers = methods.filter(m => returns(m, 'PushResult')), pullers = methods.filter(m => returns(m, 'PullResult'))
    rep.count('push operations', pushers.length); rep.count('pull operations', pullers.length)

    const LOCAL = { _noydb: 1, _v: 7, _ts: 'L', _iv: 'l', _data: 'L' }, OLDER = { ...LOCAL, _v: 3 }, NEWER = { ...LOCAL, _v: 20 }
    const REMOTE = { _noydb: 1, _v: 9, _ts: 'R', _iv: 'r', _data: 'R' }, MERGED = { _noydb: 1, _v: 11, _ts: 'M', _iv: 'm', _data: 'M' }
    const entry = (o = {}) => ({ vault: 'v', collection: 'c', id: 'i', action: 'put', version: 7, timestamp: 't', ...o })
    const F = entry({ collection: 'd', id: 'j' })
    const mutates = n => ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && /^(splice|pop|shift|push|unshift|sort|reverse)$/.test(strip(n.expression).name.text) && isQueue(strip(n.expression).expression)
    const reports = n => { if (!ts.isCallExpression(n) || !ts.isPropertyAccessExpression(strip(n.expression)) || strip(n.expression).name.text !== 'push') return null; const t = w.checker.typeToString(w.checker.getTypeAtLocation(strip(n.expression).expression)); return t === 'Conflict[]' ? 'conflict' : t === 'Error[]' ? 'error' : null }
    const asksResolver = n => ts.isCallExpression(n) && ts.isIdentifier(strip(n.expression)) && /CollectionConflictResolver/.test(typeText(strip(n.expression)))
    const asksStrategy = n => ts.isCallExpression(n) && /ConflictStrategy|\(conflict: Conflict\) =>/.test(typeText(strip(n.expression))) && !asksResolver(n) && !w.resolveCall(n, null).length
    function declared(e) { const sy = w.checker.getSymbolAtLocation(e.name); const d = sy?.valueDeclaration; return d?.type?.getText() ?? '' }
    function typeText(e) { return w.checker.typeToString(w.checker.getNonNullableType(w.checker.getTypeAtLocation(e))) }
    const assigns = n => ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && (isQueue(n.left) || ts.isElementAccessExpression(strip(n.left)) && isQueue(strip(n.left).expression))

    // entries set aside in a local list or set
    const ids = new Map()
    const idOf = v => { if (!ids.has(v)) ids.set(v, ids.size); return ids.get(v) }
    const pile = e => { e = strip(e); const d = ts.isIdentifier(e) ? w.declOf(e) : null; return d && ts.isVariableDeclaration(d) && /^(Set<DirtyEntry>|DirtyEntry\[\])$/.test(typeText(d.name)) && !(d.initializer && walkHas(d.initializer, isQueue)) ? d : null }
    function walkHas(n, f) { let y = false; walkNodes(n, x => { if (f(x)) y = true }); return y }
    const piles = n => ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && /^(add|push)$/.test(strip(n.expression).name.text) && !!pile(strip(n.expression).expression)
    const rel = {}
    /** Interprets an operation; `q0` is the queue it finds, `q1` the queue once it has written something. */
    const play = (fn, { q0, q1, local, remote, snapshot, outcome = () => 'ok', resolver, strategy = 'version' }) => {
      const log = [], removals = [], asked = []
      const seen = new Map()
      let now = null
      const r = recordRun(w, fn, {
        rel, vals: true, maxDepth: 9, closures: true,
        isEvent: n => mutates(n) || piles(n) || assigns(n) || !!reports(n) || asksResolver(n) || asksStrategy(n) || ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && strip(n.expression).name.text === 'emit',
        assume(e, ctx, I) {
          if (isQueue(e)) return { vals: [(now ?? I.curSt)?.must.has('wrote') ? q1 : q0] }
          if (ts.isPropertyAccessExpression(e) && e.expression.kind === K.ThisKeyword && enclosingClass(e) === cls) {
            if (side.has(e.name.text)) return { vals: [side.get(e.name.text)] }
            if (/ConflictStrategy/.test(declared(e))) return { vals: [strategy] }
            if (/^string$/.test(typeText(e)) && e.name.text === 'vault') return { vals: ['v'] }
          }
          if (ts.isIdentifier(e) && pile(e)) {
            const st = now ?? I.curSt, p = `in ${pile(e).pos} `
            if (!st || [...st.may].some(k => k.startsWith(p) && !st.must.has(k))) return undefined
            const all = [...ids].filter(([, n]) => st.must.has(p + n)).map(([v]) => v)
            return { vals: [/^Set/.test(typeText(e)) ? new Set(all) : all] }
          }
          if (ts.isIdentifier(e) && seen.has(w.declOf(e))) return seen.get(w.declOf(e))
          if (ts.isIdentifier(e)) { const d = w.declOf(e); if (d && ts.isParameter(d) && d.parent === fn && (d.questionToken || d.initializer)) return { vals: [undefined] } }
          if (!ts.isCallExpression(e)) return undefined
          const op = storeOp(w, e)
          if (op) {
            const on = one(I, strip(e.expression).expression, ctx)
            if (op === 'get') { const coll = one(I, e.arguments[1], ctx); if (typeof coll === 'string' && coll.startsWith('_')) return { vals: [null] }; return on === LOCALS ? { vals: [local] } : on === REMOTES ? { vals: [remote] } : undefined }
            if (op === 'loadAll') return { vals: [snapshot] }
            return undefined
          }
          if (asksResolver(e)) return { vals: [resolver] }
          const x = strip(e.expression)
          if (ts.isPropertyAccessExpression(x) && /^(has|includes)$/.test(x.name.text) && pile(x.expression)) {
            const v = one(I, e.arguments[0], ctx), k = v && `in ${pile(x.expression).pos} ${idOf(v)}`
            const st = now ?? I.curSt
            return !v || !st ? undefined : st.must.has(k) ? { vals: [true] } : st.may.has(k) ? undefined : { vals: [false] }
          }
          if (ts.isPropertyAccessExpression(x) && x.name.text === 'get' && /CollectionConflictResolver/.test(typeText(x.expression))) return { vals: [resolver === undefined ? undefined : { call: 'resolver' }] }
          if (ts.isIdentifier(x)) { const d = w.declOf(x); if (d && ts.isParameter(d) && d.parent === fn) return { vals: [true] } }
          return undefined
        },
        onRaise: () => null,
        onAtom(e, pol, st, ctx) {
          e = strip(e)
          if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.InstanceOfKeyword) {
            const nm = e.right.getText()
            if (nm === 'ConflictError') return (st.must.has('raised conflict') && !pol) || (st.must.has('raised fail') && pol) ? null : st
            if (nm === 'Error') return pol ? st : null
          }
          return st
        },
        // what was read off the queue is what it was then
        onDecl(d, st, ctx, I) { if (d.initializer && walkHas(d.initializer, isQueue)) { seen.delete(d); now = st; const v = I.constEval(d.initializer, ctx); now = null; if (v && v.vals.length === 1) seen.set(d, v) } return st },
        onAssign(e, st, ctx, I) {
          if (!assigns(e)) return st
          if (isQueue(e.left)) { now = st; const v = one(I, e.right, ctx); now = null; removals.push({ c: e, st, ctx, left: Array.isArray(v) ? v : null }) }
          return addMust(clearFacts(st, 'persisted'), 'requeued')
        },
        onCall(c, st, ctx, I) {
          const k = reports(c)
          if (k) return { st: addMust(st, `reported ${k}`), throwSt: null }
          if (piles(c)) { const v = one(I, c.arguments[0], ctx); return { st: addMust(st, `in ${pile(strip(c.expression).expression).pos} ${idOf(v)}`), opaque: true, throwSt: null } }
          if (mutates(c)) {
            const m = strip(c.expression).name.text, q = st.must.has('wrote') ? q1 : q0
            if (m === 'splice') { now = st; const a = c.arguments.map(x => one(I, x, ctx)); now = null; const left = typeof a[0] === 'number' && a.length >= 2 && typeof a[1] === 'number' ? [...q] : null; if (left) left.splice(...a); removals.push({ c, st, ctx, left }) }
            if (m === 'pop' || m === 'shift') { const left = [...q]; left[m](); removals.push({ c, st, ctx, left }) }
            return { st: clearFacts(st, 'persisted'), opaque: true, throwSt: null }
          }
          if (asksResolver(c)) { asked.push(c.arguments.map(a => one(I, a, ctx))); return { st: addMust(st, 'asked'), opaque: true, throwSt: null } }
          if (asksStrategy(c)) return { st: addMust(st, 'asked'), opaque: true, throwSt: null }
          if (ts.isCallExpression(c) && ts.isPropertyAccessExpression(strip(c.expression)) && strip(c.expression).name.text === 'emit') return { st: one(I, c.arguments[0], ctx) === 'sync:conflict' ? addMust(st, 'announced') : st, opaque: true, throwSt: null }
          return undefined
        },
        onStore({ c, op, st, ctx, I }) {
          const on = one(I, strip(c.expression).expression, ctx), args = c.arguments.map(a => one(I, a, ctx))
          if (typeof args[1] === 'string' && args[1].startsWith('_')) return { st: op === 'put' ? addMust(st, 'persisted') : st, opaque: true, throwSt: null }
          const name = `${on?.side ?? '?'} ${op}`
          const how = outcome(name, st.must.has(`tried ${name}`))
          if (['put', 'delete', 'saveAll'].includes(op)) log.push({ op, on, name, args, c, ctx })
          let s = addMust(st, `tried ${name}`)
          const raised = k => addMust(clearFacts(s, 'raised conflict', 'raised fail'), `raised ${k}`)
          if (how === 'fail' || how === 'conflict') return { st: null, opaque: true, throwSt: raised(how) }
          if (['put', 'delete', 'saveAll'].includes(op)) s = addMust(s, 'wrote')
          return { st: s, opaque: true, throwSt: null }
        },
      })
      return { log, removals, asked, out: r.out, normal: r.out.normal }
    }
    function one(I, e, ctx) { const v = e && I.constEval(e, ctx); return v && v.vals.length === 1 ? v.vals[0] : undefined }

    const say = v => v === LOCAL || v === OLDER || v === NEWER ? 'the local record' : v === REMOTE ? 'the remote record' : v === MERGED ? 'the merged record' : '?'
    const judge = (fn, name, sc, { writes, ...o }) => judge2(fn, name, sc, writes, o)
    for (const fn of pushers) {
      if (returnsOther(fn, pushers)) continue
      const E = entry(), D = entry({ action: 'delete' })
      const put = ['remote put', LOCAL, 6]
      const base = { q0: [E], local: LOCAL, remote: REMOTE }
      judge(fn, 'accepted', base, { writes: [put], kept: false })
      judge(fn, 'accepted, changed since it was queued', { ...base, local: NEWER }, { writes: [['remote put', NEWER, 6]], kept: false })
      judge(fn, 'refused', { ...base, outcome: n => n === 'remote put' ? 'fail' : 'ok' }, { writes: [put], kept: true, error: true })
      judge(fn, 'deletion accepted', { ...base, q0: [D], local: null }, { writes: [['remote delete']], kept: false })
      judge(fn, 'deletion refused', { ...base, q0: [D], local: null, outcome: n => n === 'remote delete' ? 'fail' : 'ok' }, { writes: [['remote delete']], kept: true, error: true })
      judge(fn, 'conflict with a record that is gone', { ...base, remote: null, outcome: n => n === 'remote put' ? 'conflict' : 'ok' }, { writes: [put], kept: true, error: 'any' })
      const first = then => (n, again) => n === 'remote put' && !again ? 'conflict' : then(n) ? 'fail' : 'ok'
      const cases = [
        ['local kept', LOCAL, [['remote put', LOCAL, 9]]],
        ['remote kept', REMOTE, [['local put', REMOTE, 7]]],
        ['merged', MERGED, [['remote put', MERGED, 9], ['local put', MERGED, 7]]],
        ['undecided', null, []],
      ]
      for (const [n, v, ws] of cases) {
        judge2(fn, `conflict, ${n}`, { ...base, resolver: v, outcome: first(() => false) }, [put, ...ws], { kept: v === null, conflict: true, asks: true })
        for (const x of ws) judge2(fn, `conflict, ${n}, ${x[0]} fails`, { ...base, resolver: v, outcome: (o, again) => o === 'remote put' && !again ? 'conflict' : o === x[0] ? 'fail' : 'ok' }, null, { kept: true, conflict: true, error: true })
      }
      for (const [s, v] of [['local-wins', LOCAL], ['remote-wins', REMOTE], ['version', REMOTE]]) judge2(fn, `conflict, ${s}`, { ...base, strategy: s, outcome: first(() => false) }, [put, ...cases.find(c => c[1] === v)[2]], { kept: false, conflict: true, announced: true })
      judge2(fn, 'conflict, version, local newer', { ...base, local: NEWER, strategy: 'version', q0: [entry({ version: 20 })], outcome: first(() => false) }, [['remote put', NEWER, 19], ['remote put', NEWER, 9]], { kept: false, conflict: true, announced: true })
    }
    for (const fn of pullers) {
      if (returnsOther(fn, pullers)) continue
      const snap = { c: { i: REMOTE } }
      const base = { snapshot: snap, remote: REMOTE }
      judge2(fn, 'new remote record', { ...base, q0: [], local: null }, [['local put', REMOTE, 0]], {})
      judge2(fn, 'record deleted here', { ...base, q0: [entry({ action: 'delete' })], local: null }, [], { kept: true })
      judge2(fn, 'remote newer', { ...base, q0: [], local: OLDER }, [['local put', REMOTE, 3]], {})
      judge2(fn, 'remote newer, local write fails', { ...base, q0: [], local: OLDER, outcome: n => n === 'local put' ? 'fail' : 'ok' }, [['local put', REMOTE, 3]], { error: true })
      judge2(fn, 'remote older', { ...base, q0: [], local: NEWER }, [], {})
      judge2(fn, 'remote cannot be read', { ...base, q0: [], local: OLDER, outcome: n => n === 'remote loadAll' ? 'fail' : 'ok' }, [], { error: true })
      const dirty = { ...base, q0: [entry({ version: 3 })], local: OLDER }
      for (const [n, v, ws] of [['remote kept', REMOTE, [['local put', REMOTE, 3]]], ['merged', MERGED, [['remote put', MERGED, 9], ['local put', MERGED, 3]]], ['local kept', OLDER, []], ['undecided', null, []]]) {
        judge2(fn, `both changed, ${n}`, { ...dirty, resolver: v }, ws, { kept: ws.length ? false : true, conflict: true, asks: true })
        for (const x of ws) judge2(fn, `both changed, ${n}, ${x[0]} fails`, { ...dirty, resolver: v, outcome: o => o === x[0] ? 'fail' : 'ok' }, null, { kept: true, conflict: true, error: true })
      }
      judge2(fn, 'both changed, remote-wins', { ...dirty, strategy: 'remote-wins' }, [['local put', REMOTE, 3]], { kept: false, conflict: true, announced: true })
      judge2(fn, 'both changed, local-wins', { ...dirty, strategy: 'local-wins' }, [], { kept: true, conflict: true, announced: true })
    }
    function judge2(fn, name, sc, writes, o) {
      const E = sc.q0[0]
      for (const [what, q1] of E ? [['', [F, E]], [' and the record changed meanwhile', [F, entry({ version: 8 })]]] : [['', [F]]]) {
        const r = play(fn, { ...sc, q1 })
        verdict(fn, `${w.fnName(fn)}: ${name}${what}`, r, sc, q1, writes, o)
      }
    }
    function verdict(fn, label, r, sc, q1, writes, { kept, error, conflict, announced, asks }) {
      const E = sc.q0[0], node = r.log[0]?.c ?? fn
      if (!r.normal) { rep.ob('report', label, false, { node, fn, msg: 'never returns a result' }); return }
      if (writes) {
        const key = (n, v, x) => `${n} ${v ? say(v) : ''} ${x ?? ''}`
        const got = new Set(r.log.map(y => key(y.name, y.op === 'put' ? y.args[3] : null, y.args[4]))), want = new Set(writes.map(x => key(...x)))
        const name = s => s.replace(/ \d*$/, '')
        const names = x => new Set([...x].map(name))
        rep.ob('resolve', `${label}: writes`, names(got).size === names(want).size && [...names(want)].every(x => names(got).has(x)), { node, fn, msg: `writes ${[...names(got)].join(', ') || 'nothing'} where ${[...names(want)].join(', ') || 'nothing'} is due` })
        for (const y of r.log) {
          if (!names(want).has(name(key(y.name, y.op === 'put' ? y.args[3] : null, y.args[4])))) continue
          rep.ob('expect', `${label}: ${y.name}`, ['v', 'c', 'i'].every((a, i) => y.args[i] === a) && want.has(key(y.name, y.op === 'put' ? y.args[3] : null, y.args[4])), { node: y.c, fn, path: chain(w, y.ctx), msg: y.args[4] === undefined ? `${y.name} overwrites whatever is there: it does not say which version it expects` : `${y.name} does not expect the version that was seen` })
        }
        for (const x of want) if (names(got).has(name(x))) rep.ob('expect', `${label}: ${name(x)}`, got.has(x), { node, fn, msg: 'the write that settles it does not expect the version that was seen' })
      }
      if (asks) rep.ob('resolve', `${label}: asks the resolver`, r.asked.length > 0 && r.asked.every(a => a[0] === 'i' && a[1] === sc.local && a[2] === REMOTE), { node, fn, msg: r.asked.length ? 'the resolver is given other records than the two in conflict' : 'the resolver is not asked' })
      if (announced) rep.ob('report', `${label}: announced`, r.normal.must.has('announced'), { node, fn, msg: 'the conflict is not announced' })
      if (conflict) rep.ob('report', `${label}: conflict in the result`, r.normal.must.has('reported conflict'), { node, fn, msg: 'the conflict is missing from the result' })
      if (error) rep.ob('report', `${label}: error in the result`, r.normal.must.has('reported error') || (error === 'any' && r.normal.must.has('reported conflict')), { node, fn, msg: 'the failure is missing from the result' })
      if (!E) return
      const changed = q1[1] !== E
      for (const x of r.removals) {
        rep.ob('queue', `${label}: others stay`, !!x.left && (!x.st.must.has('wrote') || x.left.includes(F) && (!changed || x.left.includes(q1[1]))), { node: x.c, fn, path: chain(w, x.ctx), msg: !x.left ? 'cannot tell which entries stay queued' : !x.left.includes(F) ? 'drops an entry that was not pushed' : 'drops the change made meanwhile' })
        if (kept && !changed) rep.ob('queue', `${label}: stays queued`, !!x.left && x.left.includes(E), { node: x.c, fn, path: chain(w, x.ctx), msg: 'drops a change the remote store has not accepted' })
      }
      if (kept === false && !changed) rep.ob('queue', `${label}: done`, r.removals.length > 0 && r.removals.some(x => x.left && !x.left.includes(E)), { node: r.removals[0]?.c ?? fn, fn, msg: 'a settled change stays queued' })
      if (r.removals.length) rep.ob('queue', `${label}: persisted`, r.normal.must.has('persisted'), { node: r.removals[0].c, fn, msg: 'the shortened queue is not persisted' })
    }
    // ── tracking a change ────────────────────────────────────────────────
    const adds = fn => { let y = false; walkNodes(fn.body, n => { if (mutates(n) && /push|unshift/.test(strip(n.expression).name.text) || assigns(n) && ts.isElementAccessExpression(strip(n.left))) y = true; if (assigns(n) && isQueue(n.left) && walkHas(n.right, x => ts.isArrayLiteralExpression(x)) && fn.parameters.length >= 4) y = true }); return y }
    const trackers = methods.filter(m => m.parameters.length >= 4 && reachesAdd(m))
    function reachesAdd(m, seen = new Set()) { if (seen.has(m) || !m.body) return false; seen.add(m); if (adds(m)) return true; let y = false; walkNodes(m.body, n => { if (!y && ts.isCallExpression(n)) y = w.resolveCall(n, null).some(t => t.fn.parent === cls && reachesAdd(t.fn, seen)) }); return y }
    const ARGS = ['c', 'i', 'put', 7]
    const full = v => v && typeof v === 'object' && v.collection === 'c' && v.id === 'i' && v.action === 'put' && v.version === 7
    const read = (I, e, ctx) => { const x = strip(e); const v = ts.isObjectLiteralExpression(x) ? new AbsObj(x, ctx) : one(I, e, ctx); return v instanceof AbsObj ? Object.fromEntries(['collection', 'id', 'action', 'version'].map(n => [n, v.get(n, I, 0)?.vals?.[0]])) : v }
    const read2 = (I, e, ctx) => { const x = strip(e); if (ts.isObjectLiteralExpression(x)) return x; const v = one(I, e, ctx); return v instanceof AbsObj ? v.node ?? v.lit ?? null : null }
    for (const fn of trackers) for (const [what, q] of [['nothing queued', []], ['the same record queued', [F, entry({ version: 6 })]], ['another collection queued', [entry({ collection: 'd' })]], ['another record queued', [entry({ id: 'j' })]]]) {
      const lost = []
      let base = false
      const old = (I, e, ctx) => { const x = read2(I, e, ctx); if (x) for (const p of x.properties ?? []) if (p.name && one(I, p.initializer ?? p.name, ctx) === 5) base = true; return e }
      const out = recordRun(w, fn, {
        rel: {}, vals: true, maxDepth: 9, closures: true,
        isEvent: n => mutates(n) || assigns(n),
        assume(e, ctx) {
          if (isQueue(e)) return { vals: [q] }
          const i = ts.isIdentifier(e) && w.declOf(e) ? fn.parameters.indexOf(w.declOf(e)) : -1
          if (i >= 0) return { vals: [ARGS[i]] }
          if (ts.isCallExpression(e) && storeOp(w, e) === 'get') return { vals: [null] }
          return undefined
        },
        onRaise: () => null,
        onAssign(e, st, ctx, I) {
          if (!assigns(e)) return st
          let s = clearFacts(st, 'persisted')
          if (isQueue(e.left)) { const v = one(I, e.right, ctx); if (Array.isArray(v)) { for (const x of q) if (!v.includes(x) && !(x.collection === 'c' && x.id === 'i')) lost.push(e); if (v.some(full) || v.some(x => x instanceof AbsObj && full(readObj(I, x)))) s = addMust(s, 'queued') } else lost.push(e); return s }
          const k = one(I, strip(e.left).argumentExpression, ctx)
          if (typeof k !== 'number' || (q[k] && !(q[k].collection === 'c' && q[k].id === 'i'))) lost.push(e)
          return full(read(I, old(I, e.right, ctx), ctx)) ? addMust(s, 'queued') : s
        },
        onCall(c, st, ctx, I) {
          if (!mutates(c)) return ts.isCallExpression(c) && !storeOp(w, c) && w.resolveCall(c, null).some(t => ts.isClassLike(t.fn.parent) && t.fn.parent !== cls) ? { st, opaque: true, throwSt: null } : undefined
          const m = strip(c.expression).name.text
          if (/push|unshift/.test(m)) return { st: c.arguments.some(a => full(read(I, old(I, a, ctx), ctx))) ? addMust(clearFacts(st, 'persisted'), 'queued') : clearFacts(st, 'persisted'), opaque: true, throwSt: null }
          lost.push(c)
          return { st, opaque: true, throwSt: null }
        },
        onStore: ({ c, op, st, ctx, I }) => ({ st: op === 'put' ? addMust(st, 'persisted') : st, opaque: true, throwSt: null }),
      }).out
      if (what === 'the same record queued') rep.ob('base', w.fnName(fn), base, { node: fn, fn, msg: 'the queued entry expects the version before the newest change, which the remote store never had: another device\'s change with that version number is overwritten' })
      rep.ob('track', `${w.fnName(fn)}: ${what}: queued`, !!out.normal?.must.has('queued'), { node: fn, fn, msg: 'returns without having queued the change' })
      rep.ob('track', `${w.fnName(fn)}: ${what}: persisted`, !!out.normal?.must.has('persisted'), { node: fn, fn, msg: 'returns without having persisted the queue' })
      rep.ob('track', `${w.fnName(fn)}: ${what}: nothing else dropped`, !lost.length, { node: lost[0] ?? fn, fn, msg: 'another queued change is dropped or replaced' })
    }
    function readObj(I, v) { return Object.fromEntries(['collection', 'id', 'action', 'version'].map(n => [n, v.get(n, I, 0)?.vals?.[0]])) }

    // ── loading the persisted queue ──────────────────────────────────────
    const synced = (n, op) => ts.isCallExpression(n) && storeOp(w, n) === op && n.arguments[1] && /^_sync$/.test(litText(n.arguments[1]))
    function litText(e) { e = strip(e); if (ts.isStringLiteralLike(e)) return e.text; const d = ts.isIdentifier(e) ? w.declOf(e) : null; return d?.initializer && ts.isStringLiteralLike(strip(d.initializer)) ? strip(d.initializer).text : '' }
    const fns = cls.members.flatMap(m => isFnLike(m) && m.body ? [m] : ts.isPropertyDeclaration(m) && m.initializer && isFnLike(strip(m.initializer)) ? [strip(m.initializer)] : [])
    const loaders = fns.filter(f => walkHas(f.body, n => synced(n, 'get')) || false)
    if (!loaders.length) rep.missing('load', 'where the persisted queue is read')
    const inMember = c => { // the member a call's promise is kept in
      let n = c, p = c.parent
      while (p) {
        if (ts.isParenthesizedExpression(p) || ts.isAsExpression(p)) { n = p; p = p.parent; continue }
        if (ts.isPropertyAccessExpression(p) && ['then', 'catch', 'finally'].includes(p.name.text) && ts.isCallExpression(p.parent)) { n = p.parent; p = n.parent; continue }
        break
      }
      return p && ts.isBinaryExpression(p) && p.right === n && ts.isPropertyAccessExpression(strip(p.left)) && strip(p.left).expression.kind === K.ThisKeyword ? { m: strip(p.left).name.text, nullish: p.operatorToken.kind === K.QuestionQuestionEqualsToken || p.operatorToken.kind === K.BarBarEqualsToken } : null
    }
    for (const fn of loaders) {
      const puts = []
      const member = e => { e = strip(e); return ts.isPropertyAccessExpression(e) && e.expression.kind === K.ThisKeyword && enclosingClass(e) === cls ? e.name.text : null }
      const facts = { onAtom(e, pol, st) { e = strip(e); const eq = ts.isBinaryExpression(e) && /^(===|==|!==|!=)$/.test(e.operatorToken.getText()) && /^(null|undefined|false|true)$/.test(e.right.getText()) ? e : null; const m = member(eq ? eq.left : e); return m ? addMust(st, `checked ${m}`) : st }, onAwait: (e, st) => clearFacts(st, ...[...st.may].filter(x => x.startsWith('checked '))) }
      recordRun(w, fn, {
        rel: {}, maxDepth: 5, closures: true, isEvent: n => assigns(n), ...facts, onRaise: () => null,
        onAssign(e, st, ctx) { if (assigns(e) && isQueue(e.left)) puts.push({ e, ctx, ok: [...st.must].some(x => x.startsWith('checked ')) || walkHas(e.right, isQueue) }); return st },
        onStore: ({ st }) => ({ st: clearFacts(st, ...[...st.may].filter(x => x.startsWith('checked '))), opaque: true, throwSt: null }),
      })
      const sites = []
      for (const c of w.calls) if (w.resolveCall(c, null).some(t => t.fn === fn)) sites.push(c)
      const once = sites.length > 0 && sites.every(c => {
        const k = inMember(c)
        if (!k) return false
        if (k.nullish) return true
        let ok = false
        recordRun(w, enclosingFn(c), { rel: {}, maxDepth: 1, isEvent: n => n === c, ...facts, onRaise: () => null, onCall(x, st) { if (x === c) ok = st.must.has(`checked ${k.m}`); return undefined } })
        return ok
      })
      rep.ob('load', w.fnName(fn) ?? 'load', once || (puts.length > 0 && puts.every(x => x.ok)), { node: puts[0]?.e ?? fn, fn, msg: 'two operations that both load the persisted queue: the second replaces what the first has queued' })
    }
    const saves = fns.flatMap(f => { const l = []; walkNodes(f.body, n => { if (synced(n, 'put')) l.push([n, f]) }); return l })
    for (const [c, f] of saves) rep.ob('own queue', `${cls.name?.text}`, !ts.isStringLiteralLike(strip(c.arguments[2])) && !litText(c.arguments[2]), { node: c, fn: f, msg: 'all sync targets of a vault persist their queue under the same key, so the last one to write decides what the others load' })

    /** Only combines other operations. */
    function returnsOther(fn, list) { let y = false, own = false; walkNodes(fn.body, n => { if (ts.isCallExpression(n)) { if (storeOp(w, n)) own = true; for (const t of w.resolveCall(n, null)) if (list.includes(t.fn) && t.fn !== fn) y = true } }); return y && !own }
  }
  rep.atLeast('queue', 60); rep.atLeast('expect', 20); rep.atLeast('resolve', 40); rep.atLeast('report', 30); rep.atLeast('track', 6); rep.atLeast('load', 1); rep.atLeast('own queue', 1)
  rep.assumptions.push('the store contract has no conditional delete: a pushed deletion is unconditional', 'stores compare the expected version as their contract says')
  return 'the class that keeps the queue between two stores is found by its types; each push and pull operation is interpreted for a table of situations (accepted, refused, conflict, resolver decision, failing second write), each with the queue unchanged and with the record changed meanwhile; what it writes, with which expected version, what it reports and which entries leave the queue are compared with what is due'
}
