// I01 — a conditional write never overwrites a newer version.
import { ts, strip, stripAwait, walkNodes, Interp, EMPTY, addMust, addMay, drop, clearFacts, thrownClass, storeOp, K } from '../lib/common.mjs'
import { stores, site, verbOf, awsCommand, sqlText } from '../lib/backend.mjs'
import { openNames, ENV, prop } from '../lib/address.mjs'
import { SOME } from '../lib/encon.mjs'

// stores documented with atomic compare-and-swap
const CAS = new Set(['to-memory', 'to-browser-local', 'to-browser-idb', 'to-aws-dynamo', 'to-postgres', 'to-mysql', 'to-sqlite', 'to-cloudflare-d1'])
const SYNC = new Set(['map', 'storage'])
const TXN = { BEGIN: 'begin', START: 'begin', COMMIT: 'commit', ROLLBACK: 'rollback' }

// rep.ob with a location that may be a whole function
const ob0 = rep => (rule, key, ok, node, msg) => rep.ob(rule, key, ok, { node, msg })

export default async function (w, rep) {
  rep.rule('conflict', 'with an expected version different from the stored one, put reaches no backend write, does not complete, and raises ConflictError carrying the stored version; with the matching version or none it writes')
  rep.rule('condition', 'a backend-side condition lets the write through only when the record is absent or its stored version equals the expected one, and its refusal becomes ConflictError')
  rep.rule('atomic', 'between reading the stored version and the write nothing else can run: no suspension point for an in-process backend, one read-write transaction otherwise')
  rep.rule('tx', 'a transaction with one stale operation reaches no lasting backend write and raises ConflictError, whether the stale operation is a put or a delete, first or last')
  const ob = ob0(rep)
  for (const s of stores(w)) {
    if (!s.kinds.size || !s.methods.has('put') || delegates(w, s)) continue
    const put = s.methods.get('put')
    if (!checksVersion(w, put) && !CAS.has(s.pkg)) { rep.count('unconditional_stores', 1); continue }
    const name = `${s.pkg.replace(/^to-/, '')} put`
    for (const obf of [false, true]) {
      for (const [S, E] of [[5, 3], [3, 5], [5, 0], [8, 7]]) {
        const r = run(w, put, ['acme', 'notes', 'r1', ENV(), E], { stored: S, expected: E, flags: { obfuscate: obf } })
        if (r.conditional) { if (!obf && E === 3) condition(w, rep, name, r, put); continue }
        ob('conflict', `${name}: stored ${S}, expected ${E}, writes nothing`, r.writes.length === 0, r.writes[0] ? r.writes[0] : put, 'a backend write is reachable although the expected version does not match the stored one')
        ob('conflict', `${name}: stored ${S}, expected ${E}, refuses`, r.thrown.has('ConflictError') && !r.completes, put, r.completes ? 'the put can complete normally although the expected version does not match' : 'no ConflictError is raised')
        if (r.versions.length) ob('conflict', `${name}: the conflict names the stored version ${S}`, r.versions.every(v => v.vals?.length === 1 && v.vals[0] === S), put, 'ConflictError is built with something else than the stored version')
      }
      const ok = run(w, put, ['acme', 'notes', 'r1', ENV(), 5], { stored: 5, expected: 5, flags: { obfuscate: obf } })
      ob('conflict', `${name}: a matching version is written`, ok.writes.length > 0 && ok.completes, put, 'no backend write is reachable with the matching version')
      const any = run(w, put, ['acme', 'notes', 'r1', ENV(), undefined], { stored: 5, expected: undefined, flags: { obfuscate: obf } })
      ob('conflict', `${name}: an unconditional put is written`, any.writes.length > 0 && any.completes, put, 'no backend write is reachable without an expected version')
      if (!obf && CAS.has(s.pkg) && !ok.conditional) {
        ob('atomic', `${name}: check and write are one step`, !ok.gap, ok.gap ? ok.gap : put, 'another writer can run between the version check and this write')
      }
    }
    const tx = s.methods.get('tx')
    if (!tx) continue
    const tn = `${s.pkg.replace(/^to-/, '')} tx`
    const op = (type, id, v) => ({ type, vault: 'acme', collection: 'notes', id, ...(type === 'put' ? { envelope: ENV() } : {}), expectedVersion: v })
    const cases = [
      ['one stale put', [op('put', 'a', 3)]],
      ['one stale delete', [op('delete', 'a', 3)]],
      ['a good put, then a stale put', [op('put', 'a', 5), op('put', 'b', 3)]],
      ['a stale put, then a good put', [op('put', 'a', 3), op('put', 'b', 5)]],
      ['a good put, then a stale delete', [op('put', 'a', 5), op('delete', 'b', 3)]],
      ['an unconditional put, then a stale put', [op('put', 'a', undefined), op('put', 'b', 3)]],
    ]
    for (const batch of [true, false]) for (const [what, ops] of cases) {
      const r = run(w, tx, [ops], { stored: 5, expected: 3, batch })
      if (r.conditional) continue
      // without a batch interface the fallback is documented as sequential
      if (batch || ops.length === 1) ob('tx', `${tn}: ${what}: nothing lasting is written`, !r.lasting, r.lasting ? r.lasting : tx, 'a backend write that is not rolled back is reachable before the conflict')
      ob('tx', `${tn}: ${what}: refused with ConflictError`, r.thrown.has('ConflictError') && !r.completes, tx, r.completes ? 'the transaction can complete although one expected version does not match' : 'no ConflictError is raised')
    }
    const ok = run(w, tx, [[op('put', 'a', 5), op('delete', 'b', 5)]], { stored: 5, expected: 5, batch: true })
    ob('tx', `${tn}: matching operations are written`, ok.writes.length > 0 && ok.completes, tx, 'no backend write is reachable with matching versions')
    if (CAS.has(s.pkg)) ob('atomic', `${tn}: check and write are one step`, !ok.gap, ok.gap ? ok.gap : tx, 'another writer can run between the version check and this write')
  }
  rep.atLeast('conflict', 60)
  rep.atLeast('condition', 3)
  rep.atLeast('tx', 30)
  rep.atLeast('atomic', 5)
  rep.assumptions.push('a backend transaction that is rolled back leaves nothing behind', 'one IndexedDB read-write transaction excludes other writers', 'a synchronous driver runs statement after statement without another in-process writer in between')
  return 'conditional abstract interpretation of put and tx of every store with stored and expected version fixed'
}

/** a wrapper hands its calls to another store */
function delegates(w, s) { let d = false; walkNodes(s.methods.get('get'), n => { if (ts.isCallExpression(n) && storeOp(w, n)) d = true }); return d }
const checksVersion = (w, put) => {
  const p = put.parameters[4]
  if (!p) return false
  let used = false
  walkNodes(put.body, n => { if (ts.isIdentifier(n) && w.declOf(n) === p) used = true })
  return used
}
const isPrim = (w, e) => { const t = w.checker.getNonNullableType(w.checker.getTypeAtLocation(e)); return !!(t.flags & (ts.TypeFlags.BooleanLike | ts.TypeFlags.NumberLike | ts.TypeFlags.StringLike)) }
const boolish = (w, e) => /^(Promise<)?boolean>?$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e)))

function run(w, fn, args, { stored, expected, flags = {}, batch = true }) {
  const out = { writes: [], thrown: new Set(), versions: [], completes: false, gap: null, lasting: null, conditional: null }
  const pix = new Map(fn.parameters.map((p, i) => [p, i]))
  const pkg = w.pkgOf(fn.getSourceFile())
  const mine = f => w.pkgOf(f.getSourceFile()) === pkg
  const base = openNames(w, flags)
  const reads = new Map()
  // does an expression belong to the record being written (rather than the stored one)?
  const incoming = (e, ctx) => {
    for (let k = 0, x = stripAwait(e); k < 8 && x; k++) {
      if (ts.isPropertyAccessExpression(x) && x.name.text === 'envelope') return bound(x.expression, ctx)
      if (ts.isIdentifier(x)) {
        const d = w.declOf(x)
        if (!d) return false
        if (pix.has(d)) return true
        if (ts.isParameter(d)) { const a = w.argFor(d, ctx); if (!a) return false; x = stripAwait(a.expr ?? a); ctx = a.ctx ?? ctx?.parent; continue }
        if (boundDecl(d, ctx)) return true
        if (ts.isVariableDeclaration(d) && d.initializer) { x = stripAwait(d.initializer); continue }
        if (ts.isBindingElement(d)) { const v = d.parent.parent; if (ts.isVariableDeclaration(v) && v.initializer && d.name.getText() === 'envelope') return bound(v.initializer, ctx); return false }
        return false
      }
      if (ts.isNonNullExpression(x) || ts.isAsExpression(x)) { x = x.expression; continue }
      return false
    }
    return false
  }
  const boundDecl = (d, ctx) => { for (let c = ctx; c; c = c.parent) if (c.bind?.has(d)) return true; return false }
  const bound = (e, ctx) => { const x = stripAwait(e); const d = ts.isIdentifier(x) ? w.declOf(x) : null; return !!d && (boundDecl(d, ctx) || pix.has(d) || ts.isParameter(d)) }
  const I = new Interp(w, {
    mayInline: mine,
    isEvent: n => ts.isThrowStatement(n) || ts.isAwaitExpression(n),
    assume(e, ctx, I) {
      if (ts.isIdentifier(e)) {
        const d = w.declOf(e)
        if (d && pix.has(d)) { const i = pix.get(d); if (i in args) return { vals: [args[i]] } }
      }
      if (ts.isPropertyAccessExpression(e)) {
        const nm = e.name.text
        if ((nm === '_v' || nm === 'v') && !ts.isThis(e.expression)) return incoming(e.expression, ctx) ? undefined : { vals: [stored] }
        if (nm === 'name' && caught(w, e.expression)) return { vals: ['ConditionalCheckFailedException'] }
        if (nm === 'length' && w.checker.isArrayType(w.checker.getNonNullableType(w.checker.getTypeAtLocation(e.expression)))) { const v = I.constEval(e.expression, ctx); if (!v || v.vals.every(x => x === SOME)) return { vals: [1] } }
        if (nm === 'batch' && !(ts.isCallExpression(e.parent) && e.parent.expression === e)) return { vals: [batch ? SOME : undefined] }
      }
      if (ts.isElementAccessExpression(e)) {
        const k = strip(e.argumentExpression)
        if (ts.isStringLiteralLike(k) && (k.text === '_v' || k.text === 'v')) return incoming(e.expression, ctx) ? undefined : { vals: [stored] }
        const o = I.constEval(e.expression, ctx); if ((!o || o.vals.every(x => x === SOME)) && !isPrim(w, e)) return { vals: [SOME] }
      }
      if (ts.isCallExpression(e)) {
        const b = site(w, e)
        if (b?.kind === 'map') return e.expression.name?.text === 'has' ? { vals: [true] } : b.method === 'get' ? { vals: [SOME] } : undefined
        if (b?.kind === 'storage') return b.method === 'getItem' ? { vals: [SOME] } : undefined
        if (b && b.verb !== 'write' && b.verb !== 'remove') return { vals: [SOME] }
        if (boolish(w, e)) { const t = w.resolveCall(e, ctx); if (t.length && t.every(x => mine(x.fn) && touches(w, x.fn))) return { vals: [true] } }
        if (ts.isPropertyAccessExpression(strip(e.expression)) && ['at', 'find', 'shift', 'pop'].includes(strip(e.expression).name.text)) return { vals: [SOME] }
        if (/^JSON\.parse$/.test(strip(e.expression).getText())) return { vals: [SOME] }
      }
      if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.InKeyword) { const k = strip(e.left); if (ts.isStringLiteralLike(k) && k.text === '_e') return { vals: [!!flags.obfuscate] } }
      if (ts.isIdentifier(e)) {
        const d = w.declOf(e)
        // something looked up: it exists
        if (d && (ts.isVariableDeclaration(d) || ts.isBindingElement(d)) && !boundDecl(d, ctx) && !(ts.isBindingElement(d) && ts.isParameter(d.parent.parent)) && found(w, d, ctx, I)) {
          const nm = (d.propertyName ?? d.name).getText()
          if (ts.isBindingElement(d) && (nm === '_v' || nm === 'v')) return { vals: [stored] }
          if (!numeric(w, e) && !boolish(w, e)) return { vals: [SOME] }
        }
      }
      return base(e, ctx, I)
    },
    onThrow(s, st, ctx, I) {
      const c = thrownClass(w, s)
      if (c) out.thrown.add(c)
      const x = s.expression && stripAwait(s.expression)
      if (c === 'ConflictError' && x && ts.isNewExpression(x) && x.arguments?.[0]) out.versions.push(I.constEval(x.arguments[0], ctx) ?? {})
      if (st.may.has('pending')) return addMay(st, 'undone')
    },
    onAwait(n, st, ctx, I) {
      if (st.may.has('read')) {
        const c = strip(n.expression)
        // awaiting the read itself inside one IndexedDB transaction keeps the transaction open
        let idb = false
        walkNodes(c, x => { if (ts.isCallExpression(x) && site(w, x)?.kind === 'idb') idb = true })
        if (idb) return st
        return addMay(st, 'gap')
      }
    },
    onCall(c, st, ctx, I) {
      const b = site(w, c)
      if (!b || b.bindOnly) return undefined
      const verb = verbOf(w, c, ctx, I)
      if (b.kind === 'sql') {
        const t = b.method === 'batch' ? null : c.arguments[0] && sqlText(w, c.arguments[0], ctx, I)
        const k = TXN[/^\s*(\w+)/.exec(t ?? '')?.[1]?.toUpperCase()]
        if (k === 'begin') return { st: addMust(addMay(st, 'open'), 'open'), throwSt: st }
        if (k === 'commit') { if (st.may.has('pending')) { out.lasting ??= c; } return { st: clearFacts(drop(st, 'open'), 'open', 'pending', 'undone'), throwSt: st } }
        if (k === 'rollback') { const t = clearFacts(drop(st, 'open'), 'open', 'pending', 'undone'); return { st: t, throwSt: t } }
      }
      if (verb === 'read') {
        const sync = SYNC.has(b.kind) || (b.kind === 'sql' && !/^Promise</.test(w.checker.typeToString(w.checker.getTypeAtLocation(c))))
        const nx = b.kind === 'idb' ? addMay(st, 'read', `on:${recv(w, c)}`) : b.kind === 'map' || sync ? addMay(clearFacts(st, 'gap'), 'read') : addMay(st, 'read', 'gap')
        return { st: nx, throwSt: st }
      }
      if (verb === 'write' || verb === 'remove') {
        if (b.kind === 'aws') {
          const cmd = awsCommand(w, c, ctx, I)
          const cd = cmd && conditionOf(w, fn, cmd, ctx, I)
          if (cd) { out.conditional = { ...cd, call: c, st }; out.writes.push(c); return { st, throwSt: addMay(st, 'refused') } }
        }
        out.writes.push(c)
        if (st.may.has('read')) {
          if (b.kind === 'idb') { if (![...st.may].some(x => x === `on:${recv(w, c)}`) || !readWrite(w, c, ctx, I) || st.may.has('gap')) out.gap ??= c }
          else if (st.may.has('gap')) out.gap ??= c
        }
        if (st.must.has('open')) return { st: addMay(st, 'pending'), throwSt: st }
        out.lasting ??= c
        return { st, throwSt: st }
      }
      return { st, throwSt: st }
    },
  }, { maxDepth: 8, opaqueIface: [] })
  I.rootFn = fn
  I.collectVals = true
  I.relevant = { has: mine }
  const f = I.run(fn)
  out.completes = !!f.normal
  if (f.throwSt?.may.has('undone')) out.lasting ??= fn
  out.I = I
  return out
}
/** the variable of a catch clause */
function caught(w, e) { const x = strip(e), d = ts.isIdentifier(x) ? w.declOf(x) : null; return !!d && ts.isVariableDeclaration(d) && ts.isCatchClause(d.parent) }
const numeric = (w, e) => !!(w.checker.getNonNullableType(w.checker.getTypeAtLocation(e)).flags & ts.TypeFlags.NumberLike)
const recv = (w, c) => { const d = w.declOf(strip(strip(c.expression).expression)); return d ? d.pos : '?' }
// does a function look at the backend?
function touches(w, fn) {
  if (fn._touches === undefined) { fn._touches = false; walkNodes(fn, n => { if (site(w, n)) fn._touches = true }) }
  return fn._touches
}
// a variable that holds what a backend lookup answered
function found(w, d, ctx, I, depth = 0) {
  if (depth > 5) return false
  let v = d
  while (v && ts.isBindingElement(v)) v = v.parent.parent
  if (!v || !ts.isVariableDeclaration(v)) return false
  const inits = [v.initializer, ...w.assignmentsOf(w.sym(d.name))].filter(Boolean).map(x => stripAwait(x.expr ?? x))
  return inits.some(x => {
    let hit = false
    walkNodes(x, n => {
      if (hit) return
      if (site(w, n)) hit = true
      else if (ts.isCallExpression(n)) { for (const t of w.resolveCall(n, ctx)) if (touches(w, t.fn)) hit = true }
      else if (ts.isIdentifier(n)) { const e = w.declOf(n); if (e && e !== d && (ts.isVariableDeclaration(e) || ts.isBindingElement(e)) && !(e.initializer && ts.isNewExpression(strip(e.initializer))) && found(w, e, ctx, I, depth + 1)) hit = true }
    })
    return hit
  })
}
/** The object store written to comes from a transaction opened read-write. */
function readWrite(w, c, ctx, I) {
  const d = w.declOf(strip(strip(c.expression).expression))
  let v = d
  while (v && ts.isBindingElement(v)) v = v.parent.parent
  if (!v) return false
  if (ts.isParameter(v)) { const a = w.argFor(v, ctx); if (!a) return false; const x = strip(a.expr ?? a); const dd = ts.isIdentifier(x) ? w.declOf(x) : null; v = dd; while (v && ts.isBindingElement(v)) v = v.parent.parent }
  let rw = false
  if (v?.initializer) walkNodes(v.initializer, n => { if (ts.isStringLiteralLike(n) && n.text === 'readwrite') rw = true; else if (ts.isIdentifier(n) && !rw) { const k = I.constEval(n, ctx); if (k?.vals.length === 1 && k.vals[0] === 'readwrite') rw = true } })
  return rw
}

// ── conditions evaluated by the backend ───────────────────────────────────
function conditionOf(w, fn, cmd, ctx, I) {
  const at = nm => {
    const p = prop(w, I, cmd.input, nm)
    if (p) return p
    const o = strip(cmd.input.expr)
    if (!ts.isIdentifier(o)) return null
    const sy = w.sym(o)
    let r = null
    walkNodes(ownerFn(o) ?? fn, n => {
      if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken) {
        const l = strip(n.left)
        const key = ts.isPropertyAccessExpression(l) ? l.name.text : ts.isElementAccessExpression(l) && ts.isStringLiteralLike(strip(l.argumentExpression)) ? strip(l.argumentExpression).text : null
        if (key === nm && ts.isIdentifier(strip(l.expression)) && w.sym(strip(l.expression)) === sy) r = { expr: n.right, ctx: cmd.input.ctx, at: n }
      }
      if (ts.isCallExpression(n) && /^Object\.assign$/.test(n.expression.getText()) && ts.isIdentifier(strip(n.arguments[0])) && w.sym(strip(n.arguments[0])) === sy) for (const a of n.arguments.slice(1)) { const q = prop(w, I, { expr: a, ctx: cmd.input.ctx }, nm); if (q) r = { ...q, at: n } }
    })
    return r
  }
  const c = at('ConditionExpression')
  if (!c) return null
  return { cond: c, names: at('ExpressionAttributeNames'), values: at('ExpressionAttributeValues') }
}
const ownerFn = n => { for (let p = n.parent; p; p = p.parent) if (ts.isFunctionLike(p)) return p; return null }
function condition(w, rep, name, r, put) {
  const ob = ob0(rep)
  const { cond, names, values, call } = r.conditional
  const I = r.I
  const v = I.constEval(cond.expr, cond.ctx)
  const text = v?.vals.length === 1 ? v.vals[0] : null
  const where = cond.expr
  const ok = typeof text === 'string'
  ob('condition', `${name}: the condition is known`, ok, where, 'the condition text is not a constant')
  if (!ok) return
  const nm = k => { if (!k.startsWith('#')) return k; const p = names && prop(w, I, names, k); const x = p && I.constEval(p.expr, p.ctx); return x?.vals.length === 1 ? x.vals[0] : null }
  const val = k => { const p = values && prop(w, I, values, k); const x = p && I.constEval(p.expr, p.ctx); return x?.vals.length === 1 ? x.vals[0] : undefined }
  for (const d of text.split(/\bOR\b/i).map(x => x.trim().replace(/^\((.*)\)$/, '$1').trim())) {
    const parts = d.split(/\bAND\b/i).map(x => x.trim())
    const good = parts.some(p => {
      if (/^attribute_not_exists\s*\(\s*\w+\s*\)$/i.test(p)) return true
      const m = /^([#\w]+)\s*=\s*(:\w+)$/.exec(p)
      return !!m && nm(m[1]) === '_v' && val(m[2]) === 3
    })
    ob('condition', `${name}: every alternative pins the stored version or its absence`, good, where, `the alternative "${d}" lets the write through without the expected version`)
  }
  ob('condition', `${name}: the condition is attached whenever a version is expected`, attached(w, put, cond, r), where, 'the condition is not set on every path that expects a version')
  ob('condition', `${name}: refusal becomes a conflict`, r.thrown.has('ConflictError'), call, 'a refused condition is not reported as ConflictError')
}
/** The condition is part of the request, or assigned on every path to the send with a version expected. */
function attached(w, put, cond, r) {
  if (!cond.at) return true
  let missing = false, seen = false
  const pix = new Map(put.parameters.map((p, i) => [p, i]))
  for (const E of [3, 0]) {
    const I = new Interp(w, {
      isEvent: n => n === cond.at,
      assume(e) { if (ts.isIdentifier(e)) { const d = w.declOf(e); if (d && pix.get(d) === 4) return { vals: [E] } } },
      onAssign(n, st) { if (n === cond.at) return addMust(st, 'cond') },
      onCall(c, st) { if (c === r.conditional.call) { seen = true; if (!st.must.has('cond')) missing = true } },
    }, { maxDepth: 5, opaqueIface: [] })
    I.relevant = { has: f => w.pkgOf(f.getSourceFile()) === w.pkgOf(put.getSourceFile()) }
    I.run(put)
  }
  return seen && !missing
}
