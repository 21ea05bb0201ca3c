// Addresses of backend calls, evaluated for given vault, collection and id.
import { ts, strip, stripAwait, isFnLike, enclosingFn, walkNodes, Interp, EMPTY, addMust, origins, mkCtx, storeOp, K } from './common.mjs'
import { site, sqlUse, sqlAddress, awsCommand, awsVerb, httpVerb } from './backend.mjs'
import { SOME } from './encon.mjs'

export const ENV = () => ({ _noydb: 1, _v: 7, _ts: '2030-01-01T00:00:00Z', _iv: 'aXY=', _data: 'ZGF0YQ==' })
const isStr = (w, e) => { const t = w.checker.getNonNullableType(w.checker.getTypeAtLocation(e)); return !!(t.flags & ts.TypeFlags.StringLike) }
const loops = fn => { if (fn._loops === undefined) { fn._loops = false; walkNodes(fn, n => { if (ts.isForStatement(n) || ts.isForOfStatement(n) || ts.isWhileStatement(n) || ts.isDoStatement(n)) fn._loops = true }) } return fn._loops }
const bound = (d, ctx) => { for (let c = ctx; c; c = c.parent) if (c.bind?.has(d)) return true; return false }

/** Values the adapter does not get from the call: options become named unknowns. */
export function openNames(w, flags = {}) {
  const opt = nm => ({ vals: [flags.empty ? '' : `⟨${nm}⟩`] })
  return (e, ctx, I) => {
    // a string digest we do not evaluate: some function of its argument
    if (flags.digest && ts.isCallExpression(e) && e.arguments.length === 1 && isStr(w, e) && !e._dig) {
      const t = w.resolveCall(e, ctx)
      if (t.length === 1 && loops(t[0].fn)) { const a = I.constEval(e.arguments[0], ctx); if (a?.vals.length === 1 && typeof a.vals[0] === 'string') { flags.digest(e); return { vals: [`h(${a.vals[0].replace(/[^a-z]/g, c => '%' + c.charCodeAt(0).toString(16))})`] } } }
    }
    if (ts.isIdentifier(e)) {
      const d = w.declOf(e)
      if (!d || bound(d, ctx)) return undefined
      const nm = e.text
      if (nm in flags && w.checker.typeToString(w.checker.getTypeAtLocation(e)) === 'boolean') return { vals: [flags[nm]] }
      let vd = d
      while (vd && ts.isBindingElement(vd)) vd = vd.parent.parent
      if (!vd) return undefined
      if (ts.isVariableDeclaration(vd) && ts.isVariableDeclarationList(vd.parent) && (ts.isForOfStatement(vd.parent.parent) || ts.isForInStatement(vd.parent.parent)) && isStr(w, e)) {
        if (I._unrolled?.has(vd)) return undefined
        return { vals: [`⟨${nm}⟩`] }
      }
      if (ts.isParameter(vd) && isStr(w, e) && !w.argFor(vd, ctx) && !(I.rootFn === vd.parent)) {
        const f = vd.parent
        if (ts.isArrowFunction(f) || ts.isFunctionExpression(f)) return { vals: [`⟨${nm}⟩`] }
        return { vals: [`⟨${nm}⟩`] }
      }
      if (ts.isBindingElement(d) && ts.isVariableDeclaration(vd) && vd.initializer && isStr(w, e)) {
        const src = strip(vd.initializer)
        if (ts.isIdentifier(src)) { const sd = w.declOf(src); if (sd && ts.isParameter(sd) && !w.argFor(sd, ctx)) return opt(nm) }
        return undefined
      }
      return undefined
    }
    if (ts.isPropertyAccessExpression(e) && isStr(w, e)) {
      const b = strip(e.expression)
      if (ts.isIdentifier(b)) { const d = w.declOf(b); if (d && ts.isParameter(d) && I.rootFn !== d.parent && !w.argFor(d, ctx) && !bound(d, ctx)) return opt(e.name.text) }
    }
    if (ts.isElementAccessExpression(e) && isStr(w, e)) {
      const v = I.constEval(e.expression, ctx)
      if (!v) return { vals: [`⟨${e.getText()}⟩`] }
    }
    return undefined
  }
}

/** One run of a store method with concrete arguments, reporting every addressed backend call. */
export function addressRun(w, fn, args, { flags = {}, assume } = {}) {
  const uses = []
  const base = openNames(w, flags)
  const pix = new Map(fn.parameters.map((p, i) => [p, i]))
  const pkg = w.pkgOf(fn.getSourceFile())
  const mine = f => w.pkgOf(f.getSourceFile()) === pkg
  const I = new Interp(w, {
    mayInline: mine,
    assume(e, ctx, I) {
      const a = assume?.(e, ctx, I)
      if (a) return a
      if (ts.isIdentifier(e)) { const d = w.declOf(e); if (d && pix.has(d)) { const i = pix.get(d); if (i in args) return { vals: [args[i]] }; if (d.initializer) return undefined } }
      return base(e, ctx, I)
    },
    onExpr(n, st, ctx, I) { if (ts.isObjectLiteralExpression(n)) { const u = sqlUse(w, n, ctx, I); if (u) add(sqlRec(u, I)) } },
    onAtom(e, pol, st, ctx, I) {
      const p = scopeTest(w, e, ctx, I)
      if (p === null) return st
      uses.push({ node: e, kind: 'scope', verb: 'list', prefix: p })
      return pol ? addMust(st, `in:${p}`) : st
    },
    onCall(c, st, ctx, I) {
      // an array predicate: everything that passes it lies under the prefix
      const s = site(w, c)
      if (!s) return undefined
      if (s.kind === 'sql') { const u = sqlUse(w, c, ctx, I); if (u && !(s.stmt && !s.bindOnly && !c.arguments.length && u.sql !== null && /[?$]/.test(u.sql))) add(sqlRec(u, I)); return { st, throwSt: st } }
      add(rec(w, c, s, st, ctx, I))
      return { st, throwSt: st }
    },
  }, { maxDepth: 8, opaqueIface: [] })
  I.rootFn = fn
  const add = u => { if (u) uses.push(u) }
  const sqlRec = (u, I) => {
    if (u.sql === null) return { node: u.node, kind: 'sql', verb: 'write', unknown: true }
    const a = sqlAddress(u)
    if (a.verb === 'ddl' || a.verb === 'txn' || !a.table) return null
    const cols = {}
    for (const [k, o] of a.eq) {
      if (o.lit !== undefined) { cols[k] = o.lit; continue }
      const v = o.param ? I.constEval(o.param.expr, o.param.ctx) : null
      cols[k] = v?.vals.length === 1 ? v.vals[0] : undefined
    }
    return { node: u.node, kind: 'sql', verb: a.verb, cols: a.or ? {} : cols, conds: a.conds, sql: u.sql, or: a.or, insert: a.insert }
  }
  I.collectVals = true
  I.relevant = { has: mine }
  const f = I.run(fn)
  return { uses, f, I }
}
const one = (I, e, ctx) => { const v = e && I.constEval(e, ctx); return v?.vals.length === 1 && typeof v.vals[0] === 'string' ? v.vals[0] : null }
function rec(w, c, s, st, ctx, I) {
  const base = { node: c, kind: s.kind, verb: s.verb, method: s.method, scoped: [...st.must].filter(x => x.startsWith('in:')).map(x => x.slice(3)), ctx, I }
  const key = (e, o = {}) => { const k = one(I, e, ctx); return k === null ? { ...base, ...o, unknown: true, expr: e } : { ...base, ...o, key: k } }
  if (s.kind === 'map') { if (s.verb === 'list' || s.method === 'clear') return { ...base, levels: levels(w, strip(c.expression).expression, ctx, I) }; const l = levels(w, strip(c.expression).expression, ctx, I); const k = one(I, c.arguments[0], ctx); return { ...base, levels: l && [...l, k] } }
  if (s.kind === 'storage') return s.method === 'key' ? null : s.method === 'clear' ? { ...base, prefix: '' } : key(c.arguments[0])
  if (s.kind === 'idb') {
    if (s.method === 'clear') return { ...base, prefix: '' }
    if (s.verb === 'list') { const r = c.arguments[0]; return r ? rangePrefix(w, r, ctx, I, base) : null }
    return key(s.method === 'put' || s.method === 'add' ? c.arguments[1] : c.arguments[0])
  }
  if (s.kind === 'fs') {
    if (s.verb === 'dir' || s.verb === 'stat') return null
    if (s.verb === 'list') { const k = one(I, c.arguments[0], ctx); return k === null ? { ...base, unknown: true, expr: c.arguments[0] } : { ...base, prefix: k.replace(/\/*$/, '/') } }
    if (/^(rename|copyFile)/.test(s.method)) return key(c.arguments[1])
    return key(c.arguments[0])
  }
  if (s.kind === 'http') {
    const verb = httpVerb(w, c, ctx, I)
    if (verb === 'dir') return null
    const k = one(I, c.arguments[0], ctx)
    if (k === null) return { ...base, verb, unknown: true, expr: c.arguments[0] }
    return verb === 'list' ? { ...base, verb, prefix: k.replace(/\/*$/, '/') } : { ...base, verb, key: k }
  }
  if (s.kind === 'aws') {
    const cmd = awsCommand(w, c, ctx, I)
    if (!cmd) return { ...base, verb: 'write', unknown: true, expr: c.arguments[0] }
    if (/^HeadBucket/.test(cmd.name)) return null
    const verb = awsVerb(cmd.name)
    const f = path => path.reduce((r, p) => r && prop(w, I, r, p), cmd.input)
    const at = path => { const x = f(path); return x ? one(I, x.expr, x.ctx) : null }
    const kce = f(['KeyConditionExpression'])
    if (kce) {
      const e = one(I, kce.expr, kce.ctx)
      if (e === null) return { ...base, verb, unknown: true, expr: kce.expr }
      const eav = f(['ExpressionAttributeValues'])
      const pv = n => { if (!eav || !ts.isObjectLiteralExpression(eav.expr)) return null; const p = eav.expr.properties.find(p => p.name?.text === n); return p && ts.isPropertyAssignment(p) ? one(I, p.initializer, eav.ctx) : null }
      const pk = /\bpk\s*=\s*(:\w+)/.exec(e), pf = /begins_with\s*\(\s*sk\s*,\s*(:\w+)\s*\)/.exec(e), or = /\bOR\b/i.test(e)
      const a = pk && !or ? pv(pk[1]) : null, b = pf ? pv(pf[1]) : ''
      return a === null || b === null ? { ...base, verb, unknown: true, expr: kce.expr } : { ...base, verb, prefix: `${a}\u0001${b}` }
    }
    for (const host of ['Key', 'Item']) {
      const pk = at([host, 'pk'])
      if (pk !== null) { const sk = at([host, 'sk']); return sk === null ? { ...base, verb, unknown: true, expr: cmd.input.expr } : { ...base, verb, key: `${pk}\u0001${sk}` } }
    }
    const k = at(['Key'])
    if (k !== null) return { ...base, verb, key: k }
    const p = at(['Prefix'])
    if (p !== null) return { ...base, verb, prefix: p }
    const kx = f(['Key']) ?? f(['Prefix'])
    return { ...base, verb, unknown: true, expr: kx?.expr ?? cmd.input.expr, ectx: kx?.ctx, noAddress: !kx }
  }
  return null
}
/** A property of an object expression, looking through spreads that cannot set it. */
export function prop(w, I, { expr, ctx }, name, depth = 0) {
  if (depth > 6 || !expr) return null
  const d = I.deref(expr, ctx, [name])
  if (d && !d.path.length) return { expr: d.expr, ctx: d.ctx }
  const o = I.deref(expr, ctx)
  const x = o && !o.path.length ? stripAwait(o.expr) : null
  if (!x || !ts.isObjectLiteralExpression(x)) return null
  for (const p of [...x.properties].reverse()) {
    if (ts.isPropertyAssignment(p) && p.name.text === name) return { expr: p.initializer, ctx: o.ctx }
    if (ts.isShorthandPropertyAssignment(p) && p.name.text === name) return { expr: p.name, ctx: o.ctx }
    if (ts.isSpreadAssignment(p)) {
      if (!w.checker.getPropertyOfType(w.checker.getTypeAtLocation(p.expression), name)) continue
      const r = prop(w, I, { expr: p.expression, ctx: o.ctx }, name, depth + 1)
      if (r) return r
      if (o.ctx && ts.isIdentifier(strip(p.expression))) return null
    }
  }
  return null
}
/** Keys of the nested maps an expression stands for, outermost first; null when unknown. */
function levels(w, e, ctx, I, depth = 0) {
  if (depth > 8) return null
  e = stripAwait(e)
  const isGet = x => ts.isCallExpression(x) && site(w, x)?.kind === 'map' && strip(x.expression).name.text === 'get'
  const ls = origins(w, e, ctx, { stop: x => isGet(x) || (ts.isIdentifier(x) && !w.assignmentsOf(w.sym(x)).length && rootMap(w, x)) || (ts.isIdentifier(x) && bound(w.declOf(x), ctx)) })
  const outs = []
  for (const l of ls) {
    const x = stripAwait(l.expr)
    if (isGet(x)) { const p = levels(w, strip(x.expression).expression, l.ctx, I, depth + 1); if (!p) return null; const k = one(I, x.arguments[0], l.ctx); outs.push([...p, k]); continue }
    if (ts.isIdentifier(x) && rootMap(w, x)) { outs.push([]); continue }
    if (ts.isNewExpression(x) || x.getText() === 'undefined') { outs.push('new'); continue }
    if (l.path.includes('*') && ts.isIdentifier(x)) { outs.push([null]); continue }
    return null
  }
  const real = outs.filter(o => o !== 'new')
  if (!real.length) return null
  return real.every(o => JSON.stringify(o) === JSON.stringify(real[0])) ? real[0] : null
}
const rootMap = (w, x) => { const d = w.declOf(x); return !!d && ts.isVariableDeclaration(d) && !!d.initializer && ts.isNewExpression(strip(d.initializer)) && /Map<string, Map<string, Map</.test(w.checker.typeToString(w.checker.getTypeAtLocation(x), undefined, ts.TypeFormatFlags?.NoTruncation)) }
/** Prefix a test confines an unknown key to: k.startsWith(p), or null. */
export function scopeTest(w, e, ctx, I) {
  e = strip(e)
  if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(strip(e.expression)) && strip(e.expression).name.text === 'startsWith' && e.arguments.length === 1) {
    const p = one(I, e.arguments[0], ctx)
    if (p !== null && p.length > 2) return p
  }
  if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.EqualsEqualsEqualsToken) {
    for (const [a, b] of [[e.left, e.right], [e.right, e.left]]) {
      const c = strip(a)
      if (ts.isCallExpression(c) && ts.isPropertyAccessExpression(strip(c.expression)) && /^(slice|substring)$/.test(strip(c.expression).name.text) && strip(c.arguments[0])?.getText() === '0') { const p = one(I, b, ctx); if (p !== null && p.length > 2) return p }
      if (ts.isCallExpression(c) && ts.isPropertyAccessExpression(strip(c.expression)) && strip(c.expression).name.text === 'indexOf' && strip(b).getText() === '0') { const p = one(I, c.arguments[0], ctx); if (p !== null && p.length > 2) return p }
    }
  }
  return null
}
function rangePrefix(w, r, ctx, I, base) {
  const d = I.deref(r, ctx)
  const x = d?.expr
  if (x && ts.isCallExpression(x) && /IDBKeyRange\.bound$/.test(strip(x.expression).getText())) { const p = one(I, x.arguments[0], d.ctx), q = one(I, x.arguments[1], d.ctx); if (p !== null && q !== null && q.startsWith(p)) return { ...base, prefix: p } }
  return { ...base, unknown: true, expr: r }
}
