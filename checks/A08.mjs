// A08: remote callers reach the data only through their authenticated, allowed surface.
import { ts, strip, stripAwait, storeOp, publicApi, enclosingFn, Interp, origins, mkCtx, chain, walkNodes, walkOwn, addMay, clearFacts, assumeProps, isFnLike, STORE_READS, STORE_WRITES, K } from '../lib/common.mjs'
import { outcome } from '../lib/decide.mjs'
import { clock } from '../lib/clock.mjs'

const CORE = ['get', 'put', 'delete', 'list', 'loadAll', 'saveAll', 'ping', 'listSince', 'listPage', 'listVaults']
const FOREIGN = ['constructor', '__proto__', 'toString', 'hasOwnProperty', 'presencePublish', 'presenceSubscribe', 'name', 'close', 'drop', 'GET', '']
const HUB = /^(Noydb|Vault|Collection|Query|LazyQuery|ScanBuilder|BlobSet|VaultFrame|VaultInstant)$/

export default async function (w, rep) {
  rep.rule('peer', 'a served peer request reaches exactly the store method it names, and only when the allow-list (or, without one, the store contract) contains it')
  rep.rule('peer-refuse', 'a method outside the allow-list or the store contract is refused')
  rep.rule('rest-session', 'without a live session token no vault or store operation is reachable from a request')
  rep.rule('rest-open', 'with a live session the data routes do reach the vault')
  rep.rule('rest-issue', 'a session is only ever created over an instance opened with the secret sent in the request')
  rep.rule('rest-errors', 'every response produced after a failed operation carries an error status, and no failure escapes the handler')
  rep.rule('rest-leak', 'no response body is computed from a caught error')
  rep.rule('ai', 'a tool call reaches the vault only for an allowed operation on an allowed collection, and performs that operation')

  // ── peer ──
  const api = publicApi(w)
  const storeAccess = n => {
    if (ts.isCallExpression(n) && storeOp(w, n)) return true
    return ts.isElementAccessExpression(n) && w.typeName(n.expression) === 'NoydbStore'
  }
  const reaches = fn => { let hit = false; walkNodes(fn, n => { if (storeAccess(n)) hit = true }); return hit }
  const handlers = w.fns.filter(f => w.pkgOf(f) === 'by-peer' && f.parameters.length >= 1 && isHandler(f))
  function isHandler(f) {
    // an inline function or a named one handed over where a request handler (method, args) is expected
    const ct = (ts.isArrowFunction(f) || ts.isFunctionExpression(f)) ? w.checker.getContextualType(f) : null
    if (ct && (ct.aliasSymbol?.name === 'RpcHandler')) return true
    const nm = f.name ?? (ts.isVariableDeclaration(f.parent) ? f.parent.name : null)
    if (!nm || !ts.isIdentifier(nm)) return false
    const sym = w.checker.getSymbolAtLocation(nm)
    let hit = false
    for (const sf of w.sourceFiles) if (w.rel(sf).startsWith('packages/by-peer/')) walkNodes(sf, n => { if (ts.isIdentifier(n) && n !== nm && w.sym(n) === sym && w.checker.getContextualType(n)?.aliasSymbol?.name === 'RpcHandler') hit = true })
    return hit
  }
  const relP = {}
  for (const fn of handlers) {
    const decide = (method, allow) => outcome(w, fn, {
      args: [method], rel: relP, isEvent: storeAccess, maxDepth: 6,
      assume: assumeProps([{ types: ['ServePeerStoreOptions'], prop: 'allow', vals: [allow] }]),
      onEvent(c, st, ctx, I, ev) {
        const op = storeOp(w, c)
        if (op) { ev.push({ c, ctx, ops: [op] }); return { st, opaque: true, throwSt: st } }
        // store[name](…)
        const callee = ts.isCallExpression(c) ? strip(c.expression) : null
        if (callee && ts.isElementAccessExpression(callee) && w.typeName(callee.expression) === 'NoydbStore') {
          ev.push({ c, ctx, ops: I.constEval(callee.argumentExpression, ctx)?.vals ?? ['?'] })
          return { st, opaque: true, throwSt: st }
        }
      },
    })
    const judge = (label, method, allow, want) => {
      const o = decide(method, allow)
      const bad = o.events.find(e => !want || e.ops.some(x => x !== method))
      let msg = ''
      if (bad) msg = want ? `${label} executes ${w.text(bad.c, 60)}` : `${label} reaches ${w.text(bad.c, 60)}`
      else if (want && !o.events.length) msg = `${label} is documented as served but reaches no store method`
      rep.ob('peer', label, !msg, { node: bad?.c ?? fn, fn, msg, path: bad ? chain(w, bad.ctx) : [] })
      if (!want && !bad) rep.ob('peer-refuse', label, !o.returns, { node: fn, fn, msg: `${label} is answered as if it had been executed` })
    }
    for (const m of CORE) {
      judge(`${m}, no allow-list`, m, undefined, true)
      judge(`${m}, allow-list with it`, m, [m], true)
      judge(`${m}, allow-list of the others`, m, CORE.filter(x => x !== m), false)
      judge(`${m}, empty allow-list`, m, [], false)
    }
    for (const m of [...FOREIGN, 'tx']) {
      judge(`"${m}", no allow-list`, m, undefined, false)
      judge(`"${m}", allow-list naming it`, m, [m], false)
    }
  }
  rep.atLeast('peer', 40)

  // ── REST ──
  const inRest = f => w.pkgOf(f) === 'in-rest'
  const restTypes = fn => fn.parameters.some(p => w.typeName(p) === 'RestRequest')
  const retRest = fn => /RestResponse/.test(w.checker.typeToString(w.checker.getReturnTypeOfSignature(w.checker.getSignatureFromDeclaration(fn))))
  // the handler is what createRestHandler hands out: the outermost function from request to response
  const routes = w.fns.filter(f => inRest(f) && f.parameters.length === 1 && restTypes(f) && retRest(f) && !w.fns.some(g => g !== f && inRest(g) && restTypes(g) && retRest(g) && callsTo(g, f)))
  function callsTo(g, f) { let hit = false; walkOwn(g, n => { if (ts.isCallExpression(n) && w.resolveCall(n, null).some(t => t.fn === f)) hit = true }); return hit }
  const recv = c => { const e = strip(c.expression); return ts.isPropertyAccessExpression(e) ? e.expression : null }
  const isData = n => {
    if (!ts.isCallExpression(n)) return false
    if (storeOp(w, n)) return true
    const r = recv(n)
    return !!r && inRest(n) && HUB.test(typeOf(r))
  }
  function typeOf(e) { const t = w.checker.getNonNullableType(w.checker.getTypeAtLocation(e)); return t.aliasSymbol?.name ?? t.symbol?.name ?? '' }
  const holdsDb = t => { t = w.checker.getNonNullableType(t); if (t.symbol?.name === 'Noydb') return true; return t.getProperties?.().some(p => p.valueDeclaration && w.checker.getNonNullableType(w.checker.getTypeOfSymbolAtLocation(p, p.valueDeclaration)).symbol?.name === 'Noydb') && !HUB.test(t.symbol?.name ?? '') }
  const sessionMap = (c, names) => {
    if (!ts.isCallExpression(c)) return false
    const e = strip(c.expression)
    if (!ts.isPropertyAccessExpression(e) || !names.includes(e.name.text)) return false
    const t = w.checker.getTypeAtLocation(e.expression)
    if (!/^(Map|WeakMap)$/.test(t.symbol?.name ?? '')) return false
    const a = w.checker.getTypeArguments(t)
    return a.length === 2 && holdsDb(a[1])
  }
  const rel = {}
  const runRest = (fn, assume) => outcome(w, fn, {
    rel, isEvent: isData, maxDepth: 7, assume,
    onEvent(c, st, ctx, I, ev) { if (isData(c)) { ev.push({ c, ctx }); return { st, opaque: true, throwSt: st } } },
  })
  for (const fn of routes) {
    const name = w.fnName(fn)
    const header = (e, ctx, I) => {
      const d = ts.isElementAccessExpression(e) ? I.deref(e.expression, ctx) : ts.isPropertyAccessExpression(e) ? I.deref(e.expression, ctx) : null
      return !!d && (d.path[d.path.length - 1] === 'headers' && (d.path.length > 1 || w.typeName(d.expr) === 'RestRequest'))
    }
    const none = (e, ctx, I) => sessionMap(e, ['get']) ? { vals: [undefined] } : sessionMap(e, ['has']) ? { vals: [false] } : undefined
    const noToken = (e, ctx, I) => header(e, ctx, I) ? { vals: [undefined] } : undefined
    const now = Date.UTC(2030, 0, 1)
    const expired = clock(w, { now, instant: e => (ts.isPropertyAccessExpression(e) && /expir/i.test(e.name.text) && holdsDb(w.checker.getTypeAtLocation(e.expression)) && !assigned(e)) ? now - 60_000 : undefined })
    for (const [label, as] of [['an unknown token', none], ['no token', noToken], ['an expired session', expired]]) {
      const o = runRest(fn, as)
      const bad = o.events[0]
      rep.ob('rest-session', `${name} with ${label}`, !bad, { node: bad?.c ?? fn, fn, msg: bad ? `a request with ${label} reaches ${w.text(bad.c, 60)}` : '', path: bad ? chain(w, bad.ctx) : [] })
    }
    const live = runRest(fn, () => undefined)
    rep.ob('rest-open', name, live.events.length >= 4, { node: fn, fn, msg: 'the data routes are not recognised any more' })
    errorsOf(fn)
  }
  function assigned(e) { const p = e.parent; return ts.isBinaryExpression(p) && p.left === e && p.operatorToken.kind === K.EqualsToken }
  rep.atLeast('rest-session', 3)

  // issue
  for (const f of w.fns) if (inRest(f)) walkOwn(f, n => {
    if (!sessionMap(n, ['set'])) return
    const opened = x => ts.isCallExpression(x) && isOpen(x)
    const leaves = origins(w, n.arguments[1], mkCtx(f), { callers: true, stop: opened }).flatMap(l => {
      const e = strip(l.expr)
      if (!ts.isObjectLiteralExpression(e)) return [l]
      const p = e.properties.find(p => p.name && HUB.test(typeOf(p.name)))
      return p ? origins(w, ts.isPropertyAssignment(p) ? p.initializer : p.name, l.ctx, { callers: true, stop: opened }) : [l]
    })
    for (const l of leaves) {
      const e = stripAwait(l.expr)
      let msg = ''
      if (!ts.isCallExpression(e) || !/^(Promise<)?Noydb>?$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e))) || !e.arguments[0]) msg = `a session is created over ${w.text(e, 60)}, which is not freshly opened from a passphrase`
      else {
        const opts = strip(e.arguments[0])
        const sp = ts.isObjectLiteralExpression(opts) ? opts.properties.find(p => p.name?.getText() === 'secret') : null
        const from = sp ? origins(w, ts.isPropertyAssignment(sp) ? sp.initializer : sp.name, l.ctx ?? mkCtx(enclosingFn(e)), { callers: true, stop: x => ts.isCallExpression(x) }) : []
        const ok = from.length && from.every(x => { const c = strip(x.expr); return ts.isCallExpression(c) && recv(c) && w.typeName(recv(c)) === 'RestRequest' || x.why === 'uninit' || x.why === 'undefined' })
        if (!ok) msg = `the instance behind a new session is opened with a secret that is not the one sent in the request (${from.map(x => w.text(x.expr, 40)).join(', ') || 'none'})`
      }
      rep.ob('rest-issue', `${w.fnName(f)} from ${w.text(e, 40)}`, !msg, { node: e, fn: f, msg })
    }
  })
  rep.atLeast('rest-issue', 1)

  function errorsOf(fn) {
    const fails = n => ts.isCallExpression(n) && (isData(n) || isOpen(n) || isBody(n))
    const bad = []
    let judged = 0, escapes = false
    const seen = new Set()
    const I = new Interp(w, {
      isEvent: n => fails(n) || ts.isThrowStatement(n) && inRest(n),
      onCall(c, st, ctx) { if (fails(c)) return { st, opaque: true, throwSt: addMay(st, 'raised') } },
      onCatch(cl, st) { return st.may.has('raised') ? addMay(clearFacts(st, 'raised'), 'failed') : st },
      onThrow(s, st) { if (st.may.has('failed')) return addMay(st, 'raised') },
      onReturn(node, st, ctx, I) {
        const f = ctx.fn
        if (!inRest(f) || !retRest(f)) return
        const e = ts.isReturnStatement(node) ? node.expression : isFnLike(node) && !ts.isBlock(node.body) ? node.body : null
        if (!e) return
        const inner = x => ts.isCallExpression(x) && w.resolveCall(x, null).some(t => I.relevant.has(t.fn))
        for (const l of origins(w, e, ctx, { stop: inner })) {
          const x = strip(l.expr)
          if (inner(x)) continue
          if (!ts.isObjectLiteralExpression(x)) { judged++; bad.push({ n: e, ctx, msg: `cannot tell the status of ${w.text(x, 60)}` }); continue }
          const get = nm => { const p = x.properties.find(p => p.name?.getText() === nm); return p ? (ts.isPropertyAssignment(p) ? p.initializer : p.name) : null }
          if (st.may.has('failed')) {
            judged++
            const v = get('status') && I.constEval(get('status'), l.ctx)
            if (!v || !v.vals.every(s => typeof s === 'number' && s >= 400 && s < 600)) bad.push({ n: e, ctx, msg: `after a failed operation the response has status ${v ? v.vals.join('/') : 'unknown'}` })
          }
          const body = get('body')
          if (body && !seen.has(e)) { seen.add(e); const lk = fromCaught(body, l.ctx); rep.ob('rest-leak', `${w.fnName(f)} ${w.text(e, 50)}`, !lk, { node: e, fn: f, msg: lk ? `the response body includes ${w.text(lk, 50)} of a caught error` : '' }) }
        }
      },
    }, { maxDepth: 7 })
    I._computeRelevant()
    const out = I.run(fn)
    if (out.throwSt?.may.has('raised')) escapes = true
    const done = new Set()
    for (const b of bad) { const k = w.loc(b.n); if (done.has(k)) continue; done.add(k); rep.ob('rest-errors', `${w.fnName(fn)} ${w.text(b.n, 50)}`, false, { node: b.n, fn, msg: b.msg, path: chain(w, b.ctx) }) }
    rep.ob('rest-errors', `${w.fnName(fn)} failure responses (${judged} judged)`, judged > 3, { node: fn, fn, msg: 'no failure response recognised' })
    rep.ob('rest-errors', `${w.fnName(fn)} failures do not escape`, !escapes, { node: fn, fn, msg: 'a failed operation rejects the handler instead of producing an error response' })
  }
  function isOpen(n) { return inRest(n) && /^(Promise<)?Noydb>?$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(n))) && ts.isIdentifier(strip(n.expression)) }
  function isBody(n) { const r = recv(n); return !!r && inRest(n) && w.typeName(r) === 'RestRequest' }
  /** A use of a caught error (other than testing its kind) the expression is computed from. */
  function fromCaught(e, ctx, depth = 0, busy = new Set()) {
    let hit = null
    const visit = n => {
      if (hit || !n) return
      if (ts.isConditionalExpression(n)) { visit(n.whenTrue); visit(n.whenFalse); return }
      if (ts.isBinaryExpression(n) && /^(instanceof|[=!]==?)$/.test(n.operatorToken.getText())) return
      if (ts.isPropertyAccessExpression(n)) { visit(n.expression); return }
      if (ts.isPropertyAssignment(n)) { visit(n.initializer); return }
      if (ts.isIdentifier(n)) {
        const d = w.declOf(n)
        if (!d || depth > 8) return
        if (ts.isVariableDeclaration(d) && d.parent && ts.isCatchClause(d.parent)) { if (w.typeName(n) !== 'ValidationError') hit = n; return }
        if (busy.has(d)) return
        busy.add(d)
        if (ts.isVariableDeclaration(d)) { for (const x of [d.initializer, ...w.assignmentsOf(w.sym(n)).map(a => a.value)]) if (x && !hit) hit = fromCaught(x, ctx, depth + 1, busy) }
        else if (ts.isParameter(d)) { const a = w.argFor(d, ctx); if (a?.expr && w.typeName(n) !== 'ValidationError') hit = fromCaught(a.expr, a.ctx, depth + 1, busy) }
        else if (ts.isBindingElement(d)) { const v = d.parent.parent; if (v.initializer) hit = fromCaught(v.initializer, ctx, depth + 1, busy) }
        busy.delete(d)
        return
      }
      if (ts.isCallExpression(n)) {
        const ts_ = w.resolveCall(n, ctx)
        if (ts_.length && !isData(n)) { for (const t of ts_) for (const r of w.returnExprs(t.fn)) if (!hit) hit = fromCaught(r, mkCtx(t.fn, n, ctx, t.ctx), depth + 1, busy); return }
      }
      ts.forEachChild(n, visit)
    }
    visit(e)
    return hit
  }
  rep.atLeast('rest-leak', 8)

  // ── AI tools ──
  const OPS = ['list', 'get', 'put', 'delete', 'count']
  const DOES = { list: ['list', 'query', 'scan', 'listPage'], get: ['get'], put: ['put'], delete: ['delete'], count: ['list', 'count'] }
  const aiFns = [...api.fns].filter(([f]) => w.pkgOf(f) === 'in-ai' && f.parameters.some(p => w.typeName(p) === 'ToolCall'))
  const relA = {}
  const inAi = n => w.pkgOf(n) === 'in-ai'
  const isUse = n => ts.isCallExpression(n) && inAi(n) && !!recv(n) && HUB.test(typeOf(recv(n)))
  for (const [fn, name] of aiFns) {
    const judge = (tool, op, coll, ops, colls, want) => {
      const o = outcome(w, fn, {
        rel: relA, isEvent: isUse, maxDepth: 6,
        assume: assumeProps([{ types: ['ToolCall'], prop: 'name', vals: [tool] }, { types: ['InvokeOptions'], prop: 'allowedOperations', vals: [ops] }, { types: ['InvokeOptions'], prop: 'allowedCollections', vals: [colls] }]),
        onEvent(c, st, ctx, I, ev) { if (isUse(c)) { ev.push({ c, ctx, m: strip(c.expression).name.text, on: typeOf(recv(c)), arg: c.arguments[0] ? I.constEval(c.arguments[0], ctx)?.vals : [] }); return { st, opaque: true, throwSt: st } } },
      })
      const label = `${name}("${tool}", operations ${ops ? `[${ops}]` : 'default'}, collections ${colls ? `[${colls}]` : 'default'})`
      let msg = '', at = null
      if (!want && o.events.length) { at = o.events[0]; msg = `reaches ${w.text(at.c, 60)}` }
      if (!want && !o.events.length && o.returns) msg = 'is answered instead of refused'
      if (want) {
        const open = o.events.filter(e => e.on === 'Vault' && e.m === 'collection'), acts = o.events.filter(e => e.on !== 'Vault')
        at = acts.find(a => !DOES[op].includes(a.m)) ?? open.find(a => !a.arg || a.arg.some(x => x !== coll))
        if (at) msg = `performs ${w.text(at.c, 60)}`
        else if (!acts.length || !open.length) msg = 'is allowed but never reaches the collection'
      }
      rep.ob('ai', label, !msg, { node: at?.c ?? fn, fn, msg, path: at ? chain(w, at.ctx) : [] })
    }
    for (const op of OPS) for (const ops of [undefined, [], OPS, OPS.filter(x => x !== op)]) for (const colls of [undefined, ['inv_oices'], ['other'], []])
      judge(`inv_oices_${op}`, op, 'inv_oices', ops, colls, (ops ?? ['list', 'get']).includes(op) && (!colls || colls.includes('inv_oices')))
    for (const tool of ['invoices', '_list', 'invoices_drop', '', 'invoices_constructor', 'listinvoices']) judge(tool, 'list', 'invoices', OPS, undefined, false)
    for (const op of OPS) judge(`_internal_${op}`, op, '_internal', OPS, undefined, false)
  }
  rep.atLeast('ai', 60)
  return 'The peer request handler is evaluated for every store method and for names outside the contract under every kind of allow-list; the HTTP handler is interpreted without a token, with an unknown token and with an expired session (no vault access may remain reachable) and with every operation failing (status and body of each response evaluated); the tool bridge is evaluated for every operation, allow-list and malformed or reserved tool name.'
}
