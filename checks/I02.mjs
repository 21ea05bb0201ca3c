// I02: a resolved write has reached the backend, and a failed one is reported.
import { ts, strip, stripAwait, isFnLike, enclosingFn, walkNodes, Interp, addMay, addMust, drop, clearFacts, storeOp, STORE_WRITES, isAsync, origins, K } from '../lib/common.mjs'
import { stores, site, verbOf } from '../lib/backend.mjs'
import { openNames, ENV } from '../lib/address.mjs'
import { SOME } from '../lib/encon.mjs'

export default async function (w, rep) {
  rep.rule('reported', 'when a backend call of a store operation fails, the operation does not complete normally (a record that is confirmed absent is not a failure)')
  rep.rule('confirmed', 'a store operation completes only after the promise of every backend write it started has been awaited')
  rep.rule('floating', 'a promise that stands for a store write is awaited, returned or collected by an awaited combinator wherever it is created')
  rep.rule('swallowed', 'in the core, an error of a store write is rethrown or handed on, not discarded')
  for (const s of stores(w)) {
    if (!s.kinds.size || !s.methods.has('put') || delegates(w, s)) continue
    for (const m of ['put', 'delete', 'saveAll', 'tx', 'get']) if (s.methods.has(m)) storeMethod(w, rep, s.pkg, m, s.methods.get(m))
  }
  for (const h of w.implementers('NoydbBundleStore')) {
    const pkg = w.pkgOf(h.getSourceFile())
    if (!pkg?.startsWith('to-')) continue
    for (const m of h.properties ?? h.members ?? []) { const nm = m.name?.getText(); if (isFnLike(m) && m.body && /^(read|write|delete)Bundle$/.test(nm)) storeMethod(w, rep, pkg, nm, m) }
  }
  // the file-system handles a package offers to its own stores
  for (const sf of w.sourceFiles) if (w.pkgOf(sf)?.startsWith('to-')) walkNodes(sf, n => {
    if (!ts.isObjectLiteralExpression(n)) return
    const ms = n.properties.filter(p => isFnLike(p) && p.body)
    const names = new Set(ms.map(p => p.name?.getText()))
    if (names.has('readFile') && names.has('writeFile')) for (const m of ms) if (['readFile', 'writeFile', 'unlink', 'rename'].includes(m.name.getText())) storeMethod(w, rep, w.pkgOf(sf), m.name.getText(), m)
  })
  rep.atLeast('reported', 40)
  confirmed(w, rep)
  promises(w, rep)
  rep.assumptions.push('a failing backend call rejects or throws, an HTTP backend may instead answer with an error status (403, 423, 500 and 507 are tried); a caught error that does not identify an absent record is a failure')
  return 'abstract interpretation of store operations with each backend call failing in turn; consumption and error-flow analysis of write promises'
}
function delegates(w, s) { let d = false; walkNodes(s.methods.get('get'), n => { if (ts.isCallExpression(n) && storeOp(w, n)) d = true }); return d }

// what a failing backend looks like to the code that handles it
const ERR = { code: 'EIO', name: 'BackendFailure', message: 'backend failure', status: 500, statusCode: 500, httpStatusCode: 500, errno: -5, Code: 'InternalError' }
const isResponse = (w, e) => w.checker.getNonNullableType(w.checker.getTypeAtLocation(e)).symbol?.name === 'Response'

function storeMethod(w, rep, pkg, m, fn) {
  const mine = f => w.pkgOf(f.getSourceFile()) === pkg
  const sites = new Map()
  const base = openNames(w, {})
  const op = { type: 'put', vault: 'acme', collection: 'notes', id: 'r1', envelope: ENV() }
  const args = { put: ['acme', 'notes', 'r1', ENV(), 3], delete: ['acme', 'notes', 'r1'], saveAll: ['acme'], tx: [[op, { ...op, type: 'delete', id: 'r2' }]], get: ['acme', 'notes', 'r1'] }[m] ?? []
  const pix = new Map(fn.parameters.map((p, i) => [p, i]))
  const caughtVar = e => { const x = strip(e), d = ts.isIdentifier(x) ? w.declOf(x) : null; return !!d && (ts.isVariableDeclaration(d) && ts.isCatchClause(d.parent) || ts.isParameter(d) && /^(unknown|any|Error)$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(d))) && caughtArg(d)) }
  const caughtArg = d => true
  let current = null // the site under trial
  let status = 500
  const trial = () => {
    const found = []
    const I = new Interp(w, {
      mayInline: mine,
      isEvent: n => ts.isThrowStatement(n) || ts.isAwaitExpression(n),
      assume(e, ctx, I) {
        // a failed removal leaves the record where it was
        if (current && sites.get(current)?.verb === 'remove' && ts.isCallExpression(e) && /^(read|stat)$/.test(site(w, e)?.verb ?? '')) return { vals: [SOME] }
        if (ts.isIdentifier(e)) { const d = w.declOf(e); if (d && pix.has(d)) { const i = pix.get(d); if (i in args) return { vals: [args[i]] } } }
        if (ts.isPropertyAccessExpression(e)) {
          if (isResponse(w, e.expression) && current && respOf(e.expression, ctx)) { if (e.name.text === 'ok') return { vals: [false] }; if (e.name.text === 'status') return { vals: [status] } }
          const nm = e.name.text
          if (nm in ERR && caughtChain(e.expression)) return { vals: [ERR[nm]] }
        }
        return base(e, ctx, I)
      },
      onCall(c, st, ctx, I) {
        const b = site(w, c)
        if (!b || b.bindOnly || b.verb === 'dir' || b.verb === 'stat') return undefined
        const v = verbOf(w, c, ctx, I)
        if (v === 'dir' || v === 'txn') return undefined
        if (!/^(get|read)/.test(m) && v !== 'write' && v !== 'remove') return undefined
        if (!sites.has(c)) sites.set(c, { kind: b.kind, verb: v })
        if (c !== current) return { st, throwSt: st }
        if (b.kind === 'http') return { st: addMay(st, 'failed'), throwSt: addMay(st, 'failed') }
        if (b.kind === 'map') return { st, throwSt: st }
        return { st: null, throwSt: addMay(st, 'failed') }
      },
    }, { maxDepth: 8, opaqueIface: [] })
    I.rootFn = fn
    I.collectVals = true
    I.relevant = { has: mine }
    const f = I.run(fn)
    return f
  }
  // a property chain that starts at a caught error
  function caughtChain(e) {
    let x = strip(e)
    while (ts.isPropertyAccessExpression(x) || ts.isElementAccessExpression(x)) x = strip(x.expression)
    return ts.isIdentifier(x) && caughtVar(x)
  }
  function respOf() { return true }
  trial()
  for (const [c, info] of sites) {
    current = c
    const lost = (info.kind === 'http' ? [500, 403, 423, 507] : [500]).some(x => { status = x; return trial().normal?.may.has('failed') })
    rep.ob('reported', `${pkg}.${m}: ${w.text(c, 50)}`, !lost, { node: c, fn, msg: `when this ${info.verb} fails, ${m} can still complete normally` })
  }
  return sites.size
}

// ── writes inside a browser transaction ───────────────────────────────────
function confirmed(w, rep) {
  const settles = p => { // a promise that settles with the transaction: resolved on completion, rejected on error
    let ok = false
    walkNodes(p, n => { if (ts.isBinaryExpression(n) && ts.isPropertyAccessExpression(strip(n.left)) && strip(n.left).name.text === 'oncomplete') ok = true; if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && strip(n.expression).name.text === 'addEventListener' && /complete/.test(n.arguments[0]?.getText() ?? '')) ok = true })
    return ok
  }
  // expressions that stand for the settling of a transaction
  const settling = (e, ctx) => {
    if (origins(w, e, ctx, { stop: x => ts.isNewExpression(x) }).some(l => ts.isNewExpression(l.expr) && settles(l.expr))) return true
    const x = strip(e)
    const d = ts.isIdentifier(x) ? w.declOf(x) : null
    if (d && ts.isVariableDeclaration(d) && d.initializer && settling(strip(d.initializer), ctx)) return true
    const nm = ts.isPropertyAccessExpression(x) ? x.name.text : d && ts.isBindingElement(d) ? (d.propertyName ?? d.name).getText() : null
    if (!nm) return false
    let ok = false
    walkNodes(x.getSourceFile(), n => {
      if (!ts.isObjectLiteralExpression(n) || ok) return
      const p = n.properties.find(q => q.name?.getText() === nm)
      if (!p) return
      const v = ts.isPropertyAssignment(p) ? strip(p.initializer) : ts.isShorthandPropertyAssignment(p) ? w.checker.getShorthandAssignmentValueSymbol(p)?.valueDeclaration : null
      const src = v && ts.isIdentifier(v) ? w.declOf(v) : v
      if (src && settles(src)) ok = true
      const c = src?.initializer && ts.isCallExpression(strip(src.initializer)) ? strip(src.initializer) : src && ts.isCallExpression(src) ? src : null
      if (c) for (const t of w.resolveCall(c, null)) if (settles(t.fn)) ok = true
    })
    return ok
  }
  for (const s of stores(w)) {
    if (!s.kinds.has('idb')) continue
    for (const m of ['put', 'delete', 'saveAll', 'tx']) {
      const fn = s.methods.get(m)
      if (!fn) continue
      const mine = f => w.pkgOf(f.getSourceFile()) === s.pkg
      let writes = 0
      const I = new Interp(w, {
        mayInline: mine,
        isEvent: n => ts.isThrowStatement(n) || ts.isAwaitExpression(n),
        onCall(c, st) { const b = site(w, c); if (b?.kind === 'idb' && (b.verb === 'write' || b.verb === 'remove')) { writes++; return { st: addMay(st, 'open'), throwSt: st } } },
        onAwait(n, st, ctx) { return st.may.has('open') && settling(n.expression, ctx) ? clearFacts(st, 'open') : st },
        onReturn(n, st, ctx) { if (ts.isReturnStatement(n) && n.expression && ctx.fn === fn && settling(n.expression, ctx)) settled = true },
      }, { maxDepth: 6, opaqueIface: [] })
      let settled = false
      I.relevant = { has: mine }
      const f = I.run(fn)
      if (writes) rep.ob('confirmed', `${s.pkg}.${m}`, settled || !f.normal?.may.has('open'), { node: fn, fn, msg: `${m} can return before the browser transaction it wrote in has completed` })
    }
  }
  rep.atLeast('confirmed', 2)
}

// ── write promises throughout the code ────────────────────────────────────
const SCOPE = /^(hub|to-|by-|as-|cli|on-|in-)/
function promises(w, rep) {
  const isP = e => { const t = w.checker.getNonNullableType(w.checker.getTypeAtLocation(e)); return t.symbol?.name === 'Promise' }
  const isPs = e => { const t = w.checker.getTypeAtLocation(e); return w.checker.isArrayType(t) && w.checker.getTypeArguments(t)[0]?.symbol?.name === 'Promise' }
  const prim = c => {
    const o = storeOp(w, c)
    if (o) return STORE_WRITES.has(o)
    if (/Bundle$/.test(c.expression.name?.text ?? '') && ['writeBundle', 'deleteBundle'].includes(c.expression.name?.text) && isP(c)) return true
    const s = site(w, c)
    return !!s && isP(c) && !s.bindOnly && ['write', 'remove', undefined].includes(s.verb)
  }
  const calls = [], targets = new Map()
  for (const sf of w.sourceFiles) walkNodes(sf, n => { if (ts.isCallExpression(n)) { calls.push(n); targets.set(n, w.resolveCall(n, null).map(t => t.fn)) } })
  // functions whose promise stands for a write
  const W = new Set()
  for (let ch = true; ch;) {
    ch = false
    for (const c of calls) {
      const f = enclosingFn(c)
      if (!f || W.has(f)) continue
      if (prim(c) || (isP(c) && targets.get(c).some(t => W.has(t)))) { W.add(f); ch = true }
    }
  }
  const writes = c => ts.isCallExpression(c) && (prim(c) || (isP(c) && targets.get(c)?.some(t => W.has(t))))
  const returnsPromise = f => { if (isAsync(f)) return true; const sg = w.checker.getSignatureFromDeclaration(f); return !!sg && w.checker.getReturnTypeOfSignature(sg).symbol?.name === 'Promise' }
  const mayWait = f => { for (let g = f; g; g = enclosingFn(g)) { if (returnsPromise(g)) return true; if (!ts.isArrowFunction(g) && !ts.isFunctionExpression(g)) return false; if (!inlineCb(g)) return false } return false }
  // a callback run by the surrounding code itself (array iteration), as opposed to one handed out
  const inlineCb = g => { const p = g.parent; return ts.isCallExpression(p) && p.arguments.includes(g) && ts.isPropertyAccessExpression(strip(p.expression)) && /^(forEach|map|filter|flatMap|reduce|some|every)$/.test(strip(p.expression).name.text) }
  const deferred = g => { const p = g.parent; return ts.isCallExpression(p) && p.arguments.includes(g) && /^(globalThis\.)?(setTimeout|queueMicrotask|setImmediate|requestIdleCallback|process\.nextTick)$/.test(strip(p.expression).getText()) }
  const floats = n => { // n: promise-typed expression; is its outcome dropped?
    let p = n.parent
    for (;;) {
      if (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p)) { n = p; p = p.parent; continue }
      if (ts.isPropertyAccessExpression(p) && ['then', 'catch', 'finally'].includes(p.name.text) && ts.isCallExpression(p.parent) && p.parent.expression === p) { n = p.parent; p = n.parent; continue }
      if (ts.isConditionalExpression(p) && p.condition !== n) { n = p; p = p.parent; continue }
      if (ts.isBinaryExpression(p) && [K.AmpersandAmpersandToken, K.BarBarToken, K.QuestionQuestionToken, K.CommaToken].includes(p.operatorToken.kind)) { n = p; p = p.parent; continue }
      if (ts.isCallExpression(p) && p.expression !== n && /^Promise\.(all|allSettled|race|any|resolve)$/.test(strip(p.expression).getText())) { n = p; p = p.parent; continue }
      if (ts.isArrayLiteralExpression(p) || ts.isSpreadElement(p)) { n = p; p = p.parent; continue }
      break
    }
    if (ts.isExpressionStatement(p) || ts.isVoidExpression(p)) return true
    if (ts.isVariableDeclaration(p) && ts.isIdentifier(p.name)) return !used(p.name)
    if (ts.isCallExpression(p) && ts.isPropertyAccessExpression(strip(p.expression)) && strip(p.expression).name.text === 'push') { const a = strip(strip(p.expression).expression); return ts.isIdentifier(a) && !used(a) }
    return false
  }
  const used = id => { // a held promise (or list of promises) is awaited, returned or handed on somewhere
    const sy = w.sym(id)
    const d = w.declOf(id)
    const scope = d && (enclosingFn(d) ?? d.getSourceFile())
    if (!scope || ts.isParameter(d)) return true
    let ok = false
    walkNodes(scope, n => {
      if (ok || !ts.isIdentifier(n) || n === d.name || w.sym(n) !== sy) return
      let x = n, p = n.parent
      for (;;) {
        if (ts.isAwaitExpression(p) || ts.isReturnStatement(p) || ts.isYieldExpression(p) || (ts.isArrowFunction(p) && p.body === x)) { ok = true; return }
        if (ts.isCallExpression(p) && p.expression !== x) { const t = strip(p.expression).getText(); if (/^Promise\./.test(t)) { x = p; p = p.parent; continue } ok = true; return }
        if (ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p) || (ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken && p.right === x)) { ok = true; return }
        if (ts.isParenthesizedExpression(p) || ts.isArrayLiteralExpression(p) || ts.isSpreadElement(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p)) { x = p; p = p.parent; continue }
        if (ts.isPropertyAccessExpression(p) && ['then', 'catch', 'finally', 'map'].includes(p.name.text) && ts.isCallExpression(p.parent)) { x = p.parent; p = x.parent; continue }
        if (ts.isForOfStatement(p) && p.expression === x) { ok = true; return }
        return
      }
    })
    return ok
  }
  let n = 0
  const seen = new Set()
  for (const c of calls) {
    if (!SCOPE.test(w.pkgOf(c.getSourceFile()) ?? '')) continue
    const f = enclosingFn(c)
    if (!f || !mayWait(f)) continue
    let bad = null
    if (writes(c)) { n++; if (floats(c)) bad = 'its outcome is dropped although the surrounding operation could wait for it' }
    else {
      // a promise built around a write: p.then(() => write()), (async () => write())(), list.map(async …)
      const lits = [...c.arguments.map(strip), strip(c.expression)].filter(a => ts.isArrowFunction(a) || ts.isFunctionExpression(a)).filter(a => { let h = false; walkNodes(a, x => { if (writes(x)) h = true }); return h })
      if (lits.length) {
        n++
        const nm = ts.isPropertyAccessExpression(strip(c.expression)) ? strip(c.expression).name.text : ''
        if ((isP(c) || isPs(c)) && floats(c)) bad = 'the promise built around a write is dropped although the surrounding operation could wait for it'
        else if (nm === 'forEach' && lits.some(isAsync)) bad = 'an asynchronous callback that writes is run without waiting for it'
        else if (lits.some(deferred)) bad = 'the write is put off until after the operation has returned'
      }
    }
    const key = `${w.fnName(f)}: ${w.text(c, 50)}`
    if (bad) rep.ob('floating', key, false, { node: c, fn: f, msg: bad })
    else if (writes(c)) rep.ob('floating', key, true, { node: c, fn: f })
  }
  rep.count('functions_that_write', W.size)
  rep.atLeast('floating', 150)

  // errors of writes that are discarded
  const bestEffort = (h, c) => {
    // undoing something after a failure; the original error is what the caller gets
    for (let p = h.parent; p && !isFnLike(p); p = p.parent) if (ts.isCatchClause(p)) return true
    const cls = clsOf(h), top = topFn(h)
    if (cls === 'PresenceHandle' || cls === 'SyncScheduler') return true // ephemeral presence, background scheduling
    if (/[Ii]nde(x|ices)|[Rr]econcile/.test(w.fnName(enclosingFn(h)))) return true // rebuildable index side-cars
    if (targets.get(c)?.some(t => t.parameters.some((p, i) => c.arguments[i] && /^-1$/.test(strip(c.arguments[i]).getText())))) return true // releasing a reference; leftovers are collected later
    if (w.fnName(top) === 'routeStore' && /(^|>)delete$/.test(w.fnName(enclosingFn(h)))) return false // a delete that is not carried out everywhere comes back
    if (/^(routeStore|withHealthCheck|withCircuitBreaker|probe|runStoreProbe|bestEffortCleanup)/.test(w.fnName(top))) return true // degraded modes are the subject of another property
    return false
  }
  const clsOf = h => { for (let p = h; p; p = p.parent) if (ts.isClassLike(p)) return p.name?.text; return null }
  const topFn = h => { let f = enclosingFn(h); for (let g = f; g; g = enclosingFn(g)) f = g; return f }
  const discards = (block, v) => {
    // every way through the handler throws, or hands the error on
    let hands = false, throws = alwaysThrows(block)
    if (v) walkNodes(block, x => {
      if (!ts.isIdentifier(x) || x.text !== v) return
      let p = x.parent, y = x
      while (ts.isAsExpression(p) || ts.isParenthesizedExpression(p) || ts.isPropertyAccessExpression(p) || ts.isConditionalExpression(p) && p.condition !== y || ts.isTemplateSpan(p) || ts.isTemplateExpression(p)) { y = p; p = p.parent }
      if (ts.isCallExpression(p) && p.expression !== y || ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p) || ts.isNewExpression(p) || ts.isReturnStatement(p) || ts.isThrowStatement(p) || ts.isVariableDeclaration(p) || ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken || ts.isArrowFunction(p)) hands = true
    })
    return !throws && !hands
  }
  const alwaysThrows = b => { if (!ts.isBlock(b)) return false; const l = b.statements.at(-1); return !!l && (ts.isThrowStatement(l) || (ts.isIfStatement(l) && l.elseStatement && alwaysThrows(l.thenStatement) && alwaysThrows(l.elseStatement))) }
  for (const sf of w.sourceFiles) {
    const pkg = w.pkgOf(sf) ?? ''
    if (!/^(hub|by-|to-meter|as-)/.test(pkg)) continue
    walkNodes(sf, n => {
      let body, v, protectedPart
      if (ts.isTryStatement(n) && n.catchClause) { body = n.catchClause.block; v = n.catchClause.variableDeclaration?.name.getText(); protectedPart = n.tryBlock }
      else if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === 'catch' && isP(n.expression.expression)) {
        const h = n.arguments[0] && strip(n.arguments[0])
        if (!h || !(ts.isArrowFunction(h) || ts.isFunctionExpression(h))) return
        body = h.body; v = h.parameters[0]?.name.getText(); protectedPart = n.expression.expression
      } else return
      const hits = []
      const go = x => { if (isFnLike(x)) return; if (ts.isTryStatement(x) && x.catchClause && x !== n) return; if (writes(x) && !reads(x)) hits.push(x); ts.forEachChild(x, go) }
      go(protectedPart)
      if (!hits.length) return
      const f = enclosingFn(n)
      const c = hits.find(h => !bestEffort(n, h))
      if (!c) { rep.count('documented_best_effort', 1); return }
      rep.ob('swallowed', `${w.fnName(f)}: ${w.text(c, 50)}`, !discards(body, v), { node: ts.isTryStatement(n) ? n.catchClause : n, fn: f, msg: 'the error of this write is discarded: the caller is told it succeeded' })
    })
  }
  // calls made for what they return, which may only write as a side matter
  function reads(c) { const nm = c.expression.name?.text ?? c.expression.getText(); return /^(get|list|load|open|read|scan|count|query|has|fetch|exists|resolve|verify|poll|ping)/.test(nm) }
  rep.atLeast('swallowed', 8)
}
