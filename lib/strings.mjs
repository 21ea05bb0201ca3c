// Abstract interpretation of string-building code.
//
// The domain of a value is the set of characters it may still carry over from
// untrusted data (`l`), the characters that escaping has put there (`x`), a
// known constant (`c`), and the shape of containers: fields (`f`), elements
// (`e`), keys (`k`).  Nothing is executed: the statements of each function are
// interpreted over this domain, loops are iterated until the containers are
// stable, branches are joined, and a test on a value (regular expression,
// includes, equality, typeof through the checker) refines it on either branch.
import { ts, strip, isFnLike } from './common.mjs'

const K = ts.SyntaxKind
export const ALL = ["'", '"', '`', '\\', ',', '\r', '\n', '<', '>', '&', ' ', '=', '/', ';', '(', ')', '-', '%', '?', '#', ':', '\t']

export class V {
  constructor(o = {}) { this.l = o.l ?? new Set(); this.x = o.x ?? new Set(); this.f = o.f ?? null; this.e = o.e ?? null; this.k = o.k ?? null; this.c = o.c; this.d = !!o.d; this.fn = o.fn ?? null; this.also = o.also ?? []; this.from = o.from ?? null; this.at = o.at ?? null; this.nul = !!o.nul; this.was = o.was ?? null; this.one = !!o.one }
}
export const data = from => new V({ l: new Set(ALL), d: true, from })
/** Marks a value that has already broken out of the place it was spliced into. */
export const BROKEN = 'broken'
export const clean = () => new V()
export const known = c => new V({ c })
const UNDEF = () => new V({ nul: true, c: undefined })

function joinL(a, b) { if (!b.size) return a; if (!a.size) return b; return new Set([...a, ...b]) }
function join(a, b, depth = 0) {
  if (!a) return b
  if (!b || a === b) return a
  if (depth > 5) return new V({ l: joinL(a.l, b.l), d: a.d || b.d, from: a.from ?? b.from })
  const r = new V({ l: joinL(a.l, b.l), x: joinL(a.x, b.x), d: a.d || b.d, from: a.from ?? b.from, at: a.l.size ? a.at ?? b.at : b.at ?? a.at, nul: a.nul && b.nul, c: a.c !== undefined && a.c === b.c ? a.c : undefined, fn: a.fn ?? b.fn, also: [a, b], was: a.was || b.was ? new Set([...(a.was ?? []), ...(b.was ?? [])]) : null })
  if (a.f || b.f) {
    r.f = new Map()
    for (const [n, v] of a.f ?? []) r.f.set(n, v)
    for (const [n, v] of b.f ?? []) r.f.set(n, r.f.has(n) ? join(r.f.get(n), v, depth + 1) : v)
  }
  r.e = a.e && b.e ? join(a.e, b.e, depth + 1) : a.e ?? b.e
  r.k = a.k && b.k ? join(a.k, b.k, depth + 1) : a.k ?? b.k
  return r
}
function withL(v, l, x) { return new V({ ...v, l, x: x ?? v.x, c: undefined, also: [] }) }
function mutate(v, fn, seen = new Set()) { if (!v || seen.has(v)) return; seen.add(v); fn(v); for (const o of v.also) mutate(o, fn, seen) }
const addElem = (v, el) => mutate(v, o => { o.e = join(o.e, el) })
const addField = (v, n, val) => mutate(v, o => { (o.f ??= new Map()).set(n, o.f.has(n) ? join(o.f.get(n), val) : val) })
const addDyn = (v, key, val) => mutate(v, o => { o.k = join(o.k, key); o.e = join(o.e, val) })
const field = (v, n) => v.f?.get(n) ?? (v.d ? data(v.from) : v.e ?? new V({ l: v.l, x: v.x, from: v.from, nul: !v.cfg && !!v.f && !v.l.size }))
const elem = v => { let r = v.e; if (v.f) for (const x of v.f.values()) r = join(r, x); if (v.d || (!r && v.l.size)) r = join(r, new V({ l: v.l, x: v.x, d: v.d, from: v.from, was: v.was, at: v.at })); return r ?? clean() }
const keys = v => join(v.d ? data(v.from) : clean(), v.k ?? clean())

class Env {
  constructor(parent) { this.parent = parent; this.vars = new Map() }
  get(s) { for (let e = this; e; e = e.parent) if (e.vars.has(s)) return e.vars.get(s); return null }
  owner(s) { for (let e = this; e; e = e.parent) if (e.vars.has(s)) return e; return this }
}

export class Strings {
  /** opts: format('sql'|'csv'|'xml'|'json'|'ndjson'), mysql, source(call) → V, sink(node, v), inline(fn) */
  constructor(w, opts) { this.w = w; this.o = opts; this.depth = 0; this.stack = []; this.steps = 0; this.visited = new Set() }

  callFn(fn, args, env, self) {
    if (!fn.body || this.depth > 14 || this.stack.filter(f => f === fn).length > 1 || this.steps > 400000) return new V({ l: args.reduce((s, a) => joinL(s, a.l), new Set()), d: args.some(a => a.d) })
    this.visited.add(fn)
    this.depth++; this.stack.push(fn)
    const e = new Env(env ?? null)
    e.self = self
    e.yields = null
    fn.parameters.forEach((p, i) => {
      let v = p.dotDotDotToken ? new V({ e: args.slice(i).reduce((a, b) => join(a, b), null) }) : args[i]
      if ((!v || v.nul) && p.initializer) v = this.ev(p.initializer, e)
      this.bind(p.name, v ?? UNDEF(), e)
    })
    let r
    if (ts.isBlock(fn.body)) r = this.block(fn.body.statements, e).ret ?? UNDEF()
    else r = this.ev(fn.body, e)
    if (fn.asteriskToken) r = new V({ e: e.yields ?? clean() })
    this.depth--; this.stack.pop()
    return r
  }

  bind(name, v, env) {
    if (ts.isIdentifier(name)) { const s = this.w.checker.getSymbolAtLocation(name); if (s) env.vars.set(s, v); return }
    if (ts.isObjectBindingPattern(name)) {
      for (const el of name.elements) {
        if (el.dotDotDotToken) { this.bind(el.name, v, env); continue }
        const key = el.propertyName ?? el.name
        let x = ts.isComputedPropertyName(key) ? elem(v) : field(v, key.text)
        if (el.initializer) x = x.nul ? this.ev(el.initializer, env) : join(x, this.ev(el.initializer, env))
        this.bind(el.name, x, env)
      }
    } else name.elements.forEach((el, i) => { if (ts.isBindingElement(el)) this.bind(el.name, el.dotDotDotToken ? v : v.f?.get(String(i)) ?? elem(v), env) })
  }

  block(stmts, env) {
    let ret = null
    for (const s of stmts) if (ts.isFunctionDeclaration(s) && s.name) { const y = this.w.checker.getSymbolAtLocation(s.name); if (y) env.vars.set(y, new V({ fn: { node: s, env } })) }
    for (const s of stmts) {
      const r = this.st(s, env)
      if (r.ret) ret = join(ret, r.ret)
      if (r.exits) return { ret, exits: r.exits }
    }
    return { ret, exits: null }
  }
  joinVars(a, b) { const out = new Map(a); for (const [s, v] of b) out.set(s, out.has(s) ? join(out.get(s), v) : v); return out }

  branch(env, cond, a, b) {
    const base = env.vars
    const known = cond ? this.truth(cond, env) : undefined
    let ra = { ret: null, exits: null }, rb = ra, va = base, vb = base
    if (known !== false) { env.vars = new Map(base); if (cond) this.refine(cond, true, env); ra = a(); va = env.vars }
    if (known !== true) { env.vars = new Map(base); if (cond) this.refine(cond, false, env); rb = b(); vb = env.vars }
    if (known === true) { env.vars = va; return ra }
    if (known === false) { env.vars = vb; return rb }
    env.vars = ra.exits ? vb : rb.exits ? va : this.joinVars(va, vb)
    return { ret: ra.ret || rb.ret ? join(ra.ret, rb.ret) : null, exits: ra.exits && rb.exits ? 'both' : null }
  }

  st(s, env) {
    const none = { ret: null, exits: null }
    if (++this.steps > 400000) return none
    if (ts.isBlock(s)) return this.block(s.statements, env)
    if (ts.isVariableStatement(s)) { for (const d of s.declarationList.declarations) this.bind(d.name, d.initializer ? this.ev(d.initializer, env) : UNDEF(), env); return none }
    if (ts.isExpressionStatement(s)) { this.ev(s.expression, env); return none }
    if (ts.isReturnStatement(s)) return { ret: s.expression ? this.ev(s.expression, env) : UNDEF(), exits: 'return' }
    if (ts.isThrowStatement(s)) { this.ev(s.expression, env); return { ret: null, exits: 'throw' } }
    if (ts.isBreakStatement(s) || ts.isContinueStatement(s)) { (env.jumps ??= []).push(new Map(env.vars)); return { ret: null, exits: 'jump' } }
    if (ts.isIfStatement(s)) {
      this.ev(s.expression, env)
      return this.branch(env, s.expression, () => this.st(s.thenStatement, env), () => s.elseStatement ? this.st(s.elseStatement, env) : none)
    }
    if (ts.isSwitchStatement(s)) {
      const v = this.ev(s.expression, env)
      const base = env.vars
      let ret = null, vars = null, all = true, done = false
      const cl = s.caseBlock.clauses
      const consts = cl.filter(ts.isCaseClause).map(c => this.ev(c.expression, env).c)
      cl.forEach((c, i) => {
        if (done) return
        const cv = ts.isCaseClause(c) ? this.ev(c.expression, env).c : undefined
        if (v.c !== undefined && cv !== undefined && cv !== v.c) return
        if (v.c !== undefined && !ts.isCaseClause(c) && consts.includes(v.c)) return
        env.vars = new Map(base)
        if (ts.isCaseClause(c)) { if (cv !== undefined) this.setRef(s.expression, new V({ c: cv }), env) }
        else if (v.c === undefined) this.setRef(s.expression, withL(v, new Set([...v.l].filter(ch => !consts.includes(ch)))), env)
        // fall through to the following clauses
        let r = none
        for (let j = i; j < cl.length; j++) { r = this.block(cl[j].statements, env); if (r.ret) ret = join(ret, r.ret); if (r.exits) break }
        if (r.exits !== 'return' && r.exits !== 'throw' && r.exits !== 'both') { all = false; vars = vars ? this.joinVars(vars, env.vars) : env.vars }
        if (v.c !== undefined && cv === v.c) done = true
      })
      const total = done || cl.some(c => !ts.isCaseClause(c))
      if (!total) { all = false; vars = vars ? this.joinVars(vars, base) : base }
      env.vars = vars ?? base
      return { ret, exits: all ? 'both' : null }
    }
    if (ts.isForOfStatement(s)) {
      const it = this.ev(s.expression, env)
      const el = this.iter(it, s.expression)
      const decl = ts.isVariableDeclarationList(s.initializer) ? s.initializer.declarations[0].name : null
      return this.loop(env, () => { if (decl) this.bind(decl, el, env) ; return this.st(s.statement, env) })
    }
    if (ts.isForInStatement(s)) {
      const it = this.ev(s.expression, env)
      return this.loop(env, () => { this.bind(s.initializer.declarations[0].name, keys(it), env); return this.st(s.statement, env) })
    }
    if (ts.isForStatement(s)) {
      if (s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) for (const d of s.initializer.declarations) this.bind(d.name, d.initializer ? this.ev(d.initializer, env) : UNDEF(), env); else this.ev(s.initializer, env) }
      return this.loop(env, () => { if (s.condition) this.refine(s.condition, true, env); const r = this.st(s.statement, env); if (s.incrementor) this.ev(s.incrementor, env); return r })
    }
    if (ts.isWhileStatement(s) || ts.isDoStatement(s)) return this.loop(env, () => { this.ev(s.expression, env); return this.st(s.statement, env) })
    if (ts.isTryStatement(s)) {
      const base = new Map(env.vars)
      const r = this.block(s.tryBlock.statements, env)
      let out = r
      if (s.catchClause) {
        const after = env.vars
        env.vars = this.joinVars(base, after)
        const rc = this.block(s.catchClause.block.statements, env)
        env.vars = r.exits ? env.vars : rc.exits ? after : this.joinVars(after, env.vars)
        out = { ret: r.ret || rc.ret ? join(r.ret, rc.ret) : null, exits: r.exits && rc.exits ? 'both' : null }
      }
      if (s.finallyBlock) this.block(s.finallyBlock.statements, env)
      return out
    }
    if (ts.isLabeledStatement(s)) return this.st(s.statement, env)
    return none
  }
  loop(env, body) {
    let ret = null
    for (let i = 0; i < 3; i++) {
      const base = env.vars
      env.vars = new Map(base)
      const r = body()
      if (r.ret) ret = join(ret, r.ret)
      env.vars = this.joinVars(base, env.vars)
      for (const j of env.jumps ?? []) env.vars = this.joinVars(env.vars, j)
      env.jumps = []
    }
    return { ret, exits: null }
  }
  /** The characters of a string, one at a time. */
  chars(e, v) {
    let t
    try { t = this.w.checker.getTypeAtLocation(e) } catch { return null }
    return t.flags & ts.TypeFlags.StringLike ? new V({ l: v.l, x: v.x, from: v.from, was: v.was, at: v.at, one: true }) : null
  }
  iter(v, e) {
    const one = e && this.chars(e, v)
    if (one) return one
    if (v.k && !v.f) { const el = elem(v); return v.isMap ? new V({ f: new Map([['0', v.k], ['1', v.e ?? clean()]]), d: v.d, l: v.l, from: v.from }) : el }
    return elem(v)
  }

  // ── tests ────────────────────────────────────────────────────────────
  truth(e, env) {
    e = strip(e)
    if (e.kind === K.TrueKeyword) return true
    if (e.kind === K.FalseKeyword) return false
    if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken) { const t = this.truth(e.operand, env); return t === undefined ? undefined : !t }
    if (ts.isBinaryExpression(e)) {
      const op = e.operatorToken.kind
      if (op === K.AmpersandAmpersandToken || op === K.BarBarToken) {
        const a = this.truth(e.left, env), b = this.truth(e.right, env)
        return op === K.AmpersandAmpersandToken ? (a === false || b === false ? false : a && b ? true : undefined) : (a === true || b === true ? true : a === false && b === false ? false : undefined)
      }
      if ([K.EqualsEqualsEqualsToken, K.ExclamationEqualsEqualsToken, K.EqualsEqualsToken, K.ExclamationEqualsToken].includes(op)) {
        const a = this.ev(e.left, env), b = this.ev(e.right, env)
        if (a.c !== undefined && b.c !== undefined) return (a.c === b.c) === (op === K.EqualsEqualsEqualsToken || op === K.EqualsEqualsToken)
      }
    }
    if (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e)) { const v = this.ev(e, env); if (typeof v.c === 'boolean') return v.c }
    if (ts.isCallExpression(e)) { const v = this.ev(e, env); if (typeof v.c === 'boolean') return v.c }
    return undefined
  }
  setRef(e, v, env) {
    e = strip(e)
    if (!ts.isIdentifier(e)) return
    const s = this.w.checker.getSymbolAtLocation(e)
    if (s) env.vars.set(s, v)
  }
  regexOf(e, env) {
    e = strip(e)
    if (ts.isRegularExpressionLiteral(e)) { const m = /^\/(.*)\/([a-z]*)$/s.exec(e.text); try { return new RegExp(m[1], m[2]) } catch { return null } }
    if (ts.isNewExpression(e) && e.expression.getText() === 'RegExp') {
      const p = this.ev(e.arguments[0], env).c, fl = e.arguments[1] ? this.ev(e.arguments[1], env).c : ''
      try { return typeof p === 'string' && typeof fl === 'string' ? new RegExp(p, fl) : null } catch { return null }
    }
    if (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e)) {
      const d = this.w.declOf(e)
      if (d && ts.isVariableDeclaration(d) && d.initializer && d.initializer !== e) return this.regexOf(d.initializer, env)
      if (d && ts.isPropertyAssignment(d)) return this.regexOf(d.initializer, env)
      if (d && ts.isPropertyDeclaration(d) && d.initializer) return this.regexOf(d.initializer, env)
    }
    return null
  }
  /** chars of l that cannot occur when `re` does not match */
  static hit(re, c) { return new RegExp(re.source, re.flags.replace(/[gy]/g, '')).test(c) && new RegExp(re.source, re.flags.replace(/[gy]/g, '')).test('a' + c + 'a') }
  static excluded(re, c) { const r = new RegExp(re.source, re.flags.replace(/[gy]/g, '')); return ![c, 'a' + c, c + 'a', 'a' + c + 'a', '1' + c, '1' + c + '1', '-1' + c].some(s => r.test(s)) }

  refine(cond, want, env, depth = 0) {
    const e = strip(cond)
    if (depth > 4) return
    if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken) return this.refine(e.operand, !want, env, depth)
    if (ts.isBinaryExpression(e)) {
      const op = e.operatorToken.kind
      if (op === K.AmpersandAmpersandToken) { if (want) { this.refine(e.left, true, env, depth); this.refine(e.right, true, env, depth) } return }
      if (op === K.BarBarToken) { if (!want) { this.refine(e.left, false, env, depth); this.refine(e.right, false, env, depth) } return }
      const eq = op === K.EqualsEqualsEqualsToken || op === K.EqualsEqualsToken
      if (eq || op === K.ExclamationEqualsEqualsToken || op === K.ExclamationEqualsToken) {
        const yes = eq === want
        for (const [a, b] of [[e.left, e.right], [e.right, e.left]]) {
          const bv = this.ev(b, env)
          const at = strip(a)
          // s.indexOf(c) === -1
          if (ts.isCallExpression(at) && nameOf(at.expression) === 'indexOf' && b.getText().replace(/\s/g, '') === '-1') { this.dropChars(at.expression.expression, this.ev(at.arguments[0], env).c, yes, env); continue }
          if (bv.c === undefined || !ts.isIdentifier(at)) continue
          if (yes) this.setRef(at, new V({ c: bv.c }), env)
          else if (typeof bv.c === 'string' && bv.c.length === 1) { const v = this.ev(at, env); if (!v.str) { const l = new Set(v.l); l.delete(bv.c); this.setRefChar(at, withL(v, l), env) } }
          return
        }
        return
      }
      if ((op === K.GreaterThanEqualsToken || op === K.GreaterThanToken || op === K.LessThanToken) && ts.isCallExpression(strip(e.left)) && nameOf(strip(e.left).expression) === 'indexOf') {
        const absent = (op === K.LessThanToken) === want
        const call = strip(e.left)
        this.dropChars(call.expression.expression, this.ev(call.arguments[0], env).c, absent, env)
      }
      return
    }
    if (ts.isCallExpression(e)) {
      const m = nameOf(e.expression)
      if (m === 'test' && e.arguments.length === 1) {
        const re = this.regexOf(e.expression.expression, env)
        if (!re) return
        const v = this.ev(e.arguments[0], env)
        const l = new Set([...v.l].filter(c => v.one ? new RegExp(re.source, re.flags.replace(/[gy]/g, "")).test(c) === want : want ? !Strings.excluded(re, c) : !Strings.hit(re, c)))
        this.setRef(e.arguments[0], withL(v, l), env)
        return
      }
      if (m === 'includes' && e.arguments.length === 1 && !want) { this.dropChars(e.expression.expression, this.ev(e.arguments[0], env).c, true, env); return }
      if (m === 'some' && !want) {
        // [',', '"'].some(c => s.includes(c))
        const arr = strip(e.expression.expression)
        const cb = e.arguments[0] && strip(e.arguments[0])
        const els = this.constElems(arr, env)
        if (els && cb && isFnLike(cb) && !ts.isBlock(cb.body)) for (const c of els) {
          const b = strip(cb.body)
          if (ts.isCallExpression(b) && nameOf(b.expression) === 'includes') this.dropChars(b.expression.expression, c, true, env)
        }
        return
      }
      const fns = this.w.resolveCall(e).map(t => t.fn)
      const fn = fns.length === 1 ? fns[0] : null
      if (fn?.body) {
        const body = ts.isBlock(fn.body) ? (fn.body.statements.length === 1 && ts.isReturnStatement(fn.body.statements[0]) ? fn.body.statements[0].expression : null) : fn.body
        if (body) {
          const sub = new Env(env)
          fn.parameters.forEach((p, i) => { if (e.arguments[i]) this.bind(p.name, this.ev(e.arguments[i], env), sub) })
          this.refine(body, want, sub, depth + 1)
          fn.parameters.forEach((p, i) => { const s = this.w.checker.getSymbolAtLocation(p.name); if (e.arguments[i] && s && sub.vars.has(s)) this.setRef(e.arguments[i], sub.vars.get(s), env) })
        }
      }
      return
    }
    if (ts.isIdentifier(e)) {
      const d = this.w.declOf(e)
      if (d && ts.isVariableDeclaration(d) && d.initializer && (ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const)) return this.refine(d.initializer, want, env, depth + 1)
    }
  }
  setRefChar(at, v, env) { this.setRef(at, v, env) }
  constElems(e, env) {
    e = strip(e)
    if (ts.isArrayLiteralExpression(e)) { const o = e.elements.map(x => this.ev(x, env).c); return o.every(c => typeof c === 'string') ? o : null }
    if (ts.isIdentifier(e)) { const d = this.w.declOf(e); if (d && ts.isVariableDeclaration(d) && d.initializer) return this.constElems(d.initializer, env) }
    return null
  }
  dropChars(ref, c, absent, env) {
    if (!absent || typeof c !== 'string' || c.length !== 1) return
    const v = this.ev(ref, env)
    const l = new Set(v.l); l.delete(c)
    this.setRef(ref, withL(v, l), env)
  }

  // ── expressions ──────────────────────────────────────────────────────
  /** A value whose type has no room for data: numbers, booleans, literals. */
  tame(e) {
    let t
    try { t = this.w.checker.getTypeAtLocation(e) } catch { return false }
    const F = ts.TypeFlags
    const ok = x => x.isUnion?.() ? x.types.every(ok) : !!(x.flags & ((this.o.strict ? F.NumberLiteral : F.NumberLike) | F.BooleanLike | F.BigIntLike | F.StringLiteral | F.Null | F.Undefined | F.Void | F.EnumLike))
    return ok(t)
  }

  ev(e, env) {
    this.steps++
    const v = this.ev0(e, env)
    if (v.l.size && v.c === undefined && !v.f && ts.isExpression(e) && this.tame(e)) return new V({ c: v.c, nul: v.nul })
    return v
  }
  ev0(e0, env) {
    const e = strip(e0)
    if (e !== e0) return this.ev(e, env)
    if (ts.isStringLiteral(e) || ts.isNoSubstitutionTemplateLiteral(e)) return known(e.text)
    if (ts.isNumericLiteral(e)) return known(Number(e.text))
    if (e.kind === K.TrueKeyword) return known(true)
    if (e.kind === K.FalseKeyword) return known(false)
    if (e.kind === K.NullKeyword) return new V({ nul: true, c: null })
    if (ts.isAwaitExpression(e) || ts.isVoidExpression(e)) return this.ev(e.expression, env)
    if (ts.isYieldExpression(e)) {
      const v = e.expression ? this.ev(e.expression, env) : clean()
      let o = env; while (o && o.yields === undefined) o = o.parent
      if (o) o.yields = join(o.yields, e.asteriskToken ? elem(v) : v)
      return clean()
    }
    if (ts.isIdentifier(e)) {
      if (e.text === 'undefined') return UNDEF()
      const s = this.w.checker.getSymbolAtLocation(e)
      const v = s && env.get(s)
      if (v) return v
      if (s && s.flags & ts.SymbolFlags.Alias) {
        const t = this.w.checker.getAliasedSymbol(s)
        return this.global(t, e, env)
      }
      return this.global(s, e, env)
    }
    if (e.kind === K.ThisKeyword) { let o = env; while (o && !o.self) o = o.parent; return o?.self ?? clean() }
    if (ts.isTemplateExpression(e)) {
      const parts = [e.head.text]
      for (const sp of e.templateSpans) { parts.push({ e: sp.expression, v: this.ev(sp.expression, env) }); parts.push(sp.literal.text) }
      return this.compose(parts, e)
    }
    if (ts.isBinaryExpression(e)) {
      const op = e.operatorToken.kind
      if (op === K.PlusToken) {
        const parts = []
        const flat = x => { const y = strip(x); if (ts.isBinaryExpression(y) && y.operatorToken.kind === K.PlusToken) { flat(y.left); flat(y.right) } else { const v = this.ev(y, env); parts.push(typeof v.c === 'string' || typeof v.c === 'number' ? String(v.c) : { e: y, v }) } }
        flat(e)
        return this.compose(parts, e)
      }
      if (op === K.PlusEqualsToken) {
        const cur = this.ev(e.left, env), add = this.ev(e.right, env)
        const v = this.compose([typeof cur.c === 'string' ? cur.c : { e: e.left, v: cur }, typeof add.c === 'string' ? add.c : { e: e.right, v: add }], e)
        this.assign(e.left, v, env)
        return v
      }
      if (op === K.EqualsToken) { const v = this.ev(e.right, env); this.assign(e.left, v, env); return v }
      if (op === K.QuestionQuestionEqualsToken || op === K.BarBarEqualsToken || op === K.AmpersandAmpersandEqualsToken) { const v = join(this.ev(e.left, env), this.ev(e.right, env)); this.assign(e.left, v, env); return v }
      if (op === K.QuestionQuestionToken || op === K.BarBarToken) {
        const a = this.ev(e.left, env)
        if (a.c !== undefined && a.c !== null && (op === K.QuestionQuestionToken || a.c)) return a
        const lk = this.lookup(e.left, env)
        if (lk) { const base = env.vars; env.vars = new Map(base); const kv = this.ev(lk.key, env); this.setRef(lk.key, withL(kv, new Set([...kv.l].filter(c => !lk.keys.includes(c)))), env); const r = this.ev(e.right, env); env.vars = base; return join(a, r) }
        const b = this.ev(e.right, env)
        return a.nul ? b : join(a, b)
      }
      if (op === K.AmpersandAmpersandToken) {
        const base = env.vars
        const a = this.ev(e.left, env)
        env.vars = new Map(base); this.refine(e.left, true, env)
        const b = this.ev(e.right, env)
        env.vars = base
        return join(a, b)
      }
      if (op === K.CommaToken) { this.ev(e.left, env); return this.ev(e.right, env) }
      this.ev(e.left, env); this.ev(e.right, env)
      return clean()
    }
    if (ts.isConditionalExpression(e)) {
      const k = this.truth(e.condition, env)
      if (k === undefined) this.ev(e.condition, env)
      const base = env.vars
      let a = null, b = null
      if (k !== false) { env.vars = new Map(base); this.refine(e.condition, true, env); a = this.ev(e.whenTrue, env) }
      if (k !== true) { env.vars = new Map(base); this.refine(e.condition, false, env); b = this.ev(e.whenFalse, env) }
      env.vars = base
      return a && b ? (a.nul && !b.nul ? join(a, b) : join(a, b)) : a ?? b
    }
    if (ts.isPrefixUnaryExpression(e) || ts.isPostfixUnaryExpression(e)) { this.ev(e.operand, env); return clean() }
    if (ts.isTypeOfExpression(e)) return clean()
    if (ts.isArrayLiteralExpression(e)) {
      const v = new V()
      e.elements.forEach((x, i) => {
        if (ts.isSpreadElement(x)) addElem(v, this.iter(this.ev(x.expression, env), x.expression))
        else if (!ts.isOmittedExpression(x)) { const y = this.ev(x, env); addElem(v, y); if (!e.elements.some(ts.isSpreadElement)) (v.tuple ??= new Map()).set(String(i), y) }
      })
      if (v.tuple && v.tuple.size <= 4) v.f = v.tuple
      return v
    }
    if (ts.isObjectLiteralExpression(e)) {
      const v = new V({ f: new Map() })
      for (const p of e.properties) {
        if (ts.isSpreadAssignment(p)) { const s = this.ev(p.expression, env); for (const [n, x] of s.f ?? []) v.f.set(n, x); if (s.d) { v.d = true; v.l = joinL(v.l, s.l); v.from ??= s.from }; if (s.e) v.e = join(v.e, s.e); if (s.k) v.k = join(v.k, s.k); continue }
        if (ts.isShorthandPropertyAssignment(p)) { const sy = this.w.checker.getShorthandAssignmentValueSymbol(p); v.f.set(p.name.text, (sy && env.get(sy)) ?? this.global(sy, p.name, env)); continue }
        if (ts.isPropertyAssignment(p)) {
          const x = this.ev(p.initializer, env)
          if (ts.isComputedPropertyName(p.name)) { const kv = this.ev(p.name.expression, env); if (typeof kv.c === 'string') v.f.set(kv.c, x); else { v.k = join(v.k, kv); v.e = join(v.e, x) } }
          else v.f.set(p.name.text, x)
          this.o.prop?.(p, x)
          continue
        }
        if (ts.isMethodDeclaration(p) && p.name.text) v.f.set(p.name.text, new V({ fn: { node: p, env, self: v } }))
      }
      return v
    }
    if (isFnLike(e)) return new V({ fn: { node: e, env } })
    if (ts.isPropertyAccessExpression(e)) {
      const o = this.ev(e.expression, env)
      if (e.name.text === 'length' || e.name.text === 'size' || e.name.text === 'byteLength') return clean()
      return field(o, e.name.text)
    }
    if (ts.isElementAccessExpression(e)) {
      const o = this.ev(e.expression, env), kx = this.ev(e.argumentExpression, env)
      if (kx.c !== undefined) { if (o.f?.has(String(kx.c))) return o.f.get(String(kx.c)); if (o.f && !o.d && !o.e && typeof kx.c === 'string') return UNDEF() }
      return this.chars(e.expression, o) ?? elem(o)
    }
    if (ts.isNewExpression(e)) {
      const n = e.expression.getText()
      const args = (e.arguments ?? []).map(a => this.ev(ts.isSpreadElement(a) ? a.expression : a, env))
      if (n === 'Set' || n === 'Array') return new V({ e: args[0] ? elem(args[0]) : null })
      if (n === 'Map') { const v = new V({ k: clean() }); v.isMap = true; if (args[0]) { const el = elem(args[0]); v.k = el.f?.get('0') ?? el; v.e = el.f?.get('1') ?? el } return v }
      this.o.sink?.(e, args, this, env)
      const d = this.w.declOf(e.expression)
      if (d && ts.isClassDeclaration(d)) {
        const self = new V({ f: new Map() })
        self.cls = d
        for (const m of d.members) if (ts.isPropertyDeclaration(m) && m.initializer) self.f.set(m.name.getText(), this.ev(m.initializer, Object.assign(new Env(env), { self })))
        const ctor = d.members.find(ts.isConstructorDeclaration)
        if (ctor?.body && this.inline(ctor)) this.callFn(ctor, args, null, self)
        return self
      }
      return new V({ l: args.reduce((s, a) => joinL(s, a.l), new Set()), d: args.some(a => a.d) })
    }
    if (ts.isCallExpression(e)) return this.call(e, env)
    if (ts.isTaggedTemplateExpression(e)) {
      this.o.sink?.(e, [], this, env)
      return clean()
    }
    if (ts.isSpreadElement(e)) return this.ev(e.expression, env)
    return clean()
  }
  lookup(e, env) {
    e = strip(e)
    if (ts.isCallExpression(e) && nameOf(e.expression) === 'get' && e.arguments.length === 1) {
      const o = strip(e.expression.expression)
      const d = ts.isIdentifier(o) && this.w.declOf(o)
      const init = d && ts.isVariableDeclaration(d) && d.initializer && strip(d.initializer)
      if (init && ts.isNewExpression(init) && init.expression.getText() === 'Map' && init.arguments?.[0]) {
        const arr = strip(init.arguments[0])
        if (ts.isArrayLiteralExpression(arr)) { const ks = arr.elements.map(x => ts.isArrayLiteralExpression(strip(x)) ? this.ev(strip(x).elements[0], env).c : undefined); if (ks.every(x => typeof x === 'string')) return { keys: ks, key: e.arguments[0] } }
      }
      return null
    }
    if (!ts.isElementAccessExpression(e)) return null
    const o = this.ev(e.expression, env)
    if (!o.f || o.d || o.e) return null
    return { keys: [...o.f.keys()], key: e.argumentExpression }
  }
  global(s, e, env) {
    const d = s && (s.valueDeclaration ?? s.declarations?.[0])
    if (!d) return clean()
    if (isFnLike(d)) return new V({ fn: { node: d, env: null } })
    if (ts.isVariableDeclaration(d) && d.initializer && this.w.isRepoFile(d.getSourceFile())) {
      this._glob ??= new Map()
      if (this._glob.has(d)) return this._glob.get(d)
      this._glob.set(d, clean())
      const v = this.ev(d.initializer, new Env(null))
      this._glob.set(d, v)
      return v
    }
    return clean()
  }
  assign(target, v, env) {
    target = strip(target)
    if (ts.isIdentifier(target)) {
      const s = this.w.checker.getSymbolAtLocation(target)
      if (!s) return
      const o = env.owner(s)
      o.vars.set(s, o === env ? v : join(o.vars.get(s), v))
      return
    }
    if (ts.isPropertyAccessExpression(target)) { addField(this.ev(target.expression, env), target.name.text, v); return }
    if (ts.isElementAccessExpression(target)) {
      const o = this.ev(target.expression, env), kx = this.ev(target.argumentExpression, env)
      if (typeof kx.c === 'string') addField(o, kx.c, v)
      else addDyn(o, kx, v)
    }
  }
  inline(fn) { return this.o.inline ? this.o.inline(fn) : true }

  apply(fv, args, env) {
    if (fv?.fn) return this.callFn(fv.fn.node, args, fv.fn.env, fv.fn.self)
    return null
  }
  fnArg(a, env) { const v = this.ev(a, env); return v }

  call(e, env) {
    const src = this.o.source?.(e, this, env)
    const callee = strip(e.expression)
    const m = ts.isPropertyAccessExpression(callee) ? callee.name.text : null
    const text = callee.getText().replace(/\?\./g, '.')
    const argv = i => e.arguments[i] ? this.ev(e.arguments[i], env) : UNDEF()
    if (src) { e.arguments.forEach((_, i) => argv(i)); return src }
    // pure globals
    if (text === 'String' || text === 'Array.from' && e.arguments.length === 1) { const a = argv(0); return text === 'String' ? a : new V({ e: this.iter(a, e.arguments[0]) }) }
    if (text === 'Array.from') { const a = argv(0); return new V({ e: this.apply(argv(1), [a.f?.has('length') ? UNDEF() : this.iter(a, e.arguments[0]), clean()], env) ?? this.iter(a) }) }
    if (['Number', 'Boolean', 'parseInt', 'parseFloat', 'BigInt', 'isNaN', 'Array.isArray'].includes(text) || /^(Math|Number|Date)\./.test(text) || text === 'String.fromCharCode') { e.arguments.forEach((_, i) => argv(i)); return clean() }
    if (text === 'JSON.stringify') {
      const a = argv(0)
      if (typeof a.c === 'string') return known(JSON.stringify(a.c))
      const ind = e.arguments[2] ? this.ev(e.arguments[2], env) : null
      const tainted = a.l.size || a.d || deep(a)
      const jl = this.o.format === 'json' || this.o.format === 'ndjson' ? new Set() : new Set(ALL.filter(c => c !== '\r' && c !== '\n' && c !== '\t'))
      if (!tainted) return clean()
      const l = new Set(jl)
      if (ind && !ind.nul && this.o.format !== 'json') l.add('\n')
      return new V({ l, from: a.from })
    }
    if (text === 'JSON.parse') return new V({ ...argv(0), c: undefined })
    if (text === 'encodeURIComponent') { const a = argv(0); return new V({ l: new Set([...a.l].filter(c => "'()-".includes(c))), from: a.from }) }
    if (text === 'Object.keys') return new V({ e: keys(argv(0)) })
    if (text === 'Object.values') { const a = argv(0); return new V({ e: elem(a) }) }
    if (text === 'Object.entries') { const a = argv(0); return new V({ e: new V({ f: new Map([['0', keys(a)], ['1', elem(a)]]) }) }) }
    if (text === 'Object.fromEntries') { const el = elem(argv(0)); return new V({ k: el.f?.get('0') ?? el, e: el.f?.get('1') ?? el, f: null }) }
    if (text === 'Object.assign') { const o = argv(0); for (let i = 1; i < e.arguments.length; i++) { const s = argv(i); mutate(o, x => { if (s.d) { x.d = true; x.l = joinL(x.l, s.l) } }); for (const [n, v] of s.f ?? []) addField(o, n, v) } return o }
    if (text === 'Object.freeze' || text === 'structuredClone' || text === 'Promise.resolve') return argv(0)
    if (text === 'Promise.all') return argv(0)
    if (text === 'String.raw') return clean()

    let recv = null
    if (m) recv = this.ev(callee.expression, env)
    // functions of the repository, closures
    const fv = m ? (recv.f?.get(m)?.fn ? recv.f.get(m) : recv.cls ? method(recv, m) : null) : ts.isIdentifier(callee) || isFnLike(callee) ? this.ev(callee, env) : null
    const args = e.arguments.map(a => ts.isSpreadElement(a) ? elem(this.ev(a.expression, env)) : null)
    const evArgs = () => e.arguments.map((a, i) => args[i] ?? this.ev(a, env))
    this.o.sink?.(e, null, this, env)
    if (fv?.fn && this.inline(fv.fn.node)) return this.callFn(fv.fn.node, evArgs(), fv.fn.env, fv.fn.self)
    if (!m) {
      const fns = this.w.resolveCall(e).map(t => t.fn).filter(f => f.body)
      if (fns.length && fns.every(f => this.inline(f))) { let r = null; const av = evArgs(); for (const f of fns) r = join(r, this.callFn(f, av, null)); return r }
    } else {
      const r = this.builtin(e, m, recv, argv, env)
      if (r) return r
      const fns = this.w.resolveCall(e).map(t => t.fn).filter(f => f.body && this.inline(f))
      if (fns.length && fns.length <= 3) { let r2 = null; const av = evArgs(); for (const f of fns) r2 = join(r2, this.callFn(f, av, null, recv)); return r2 }
    }
    const av = evArgs()
    // an unknown callback is entered with whatever it may be given
    for (const a of av) if (a.fn && this.inline(a.fn.node)) this.callFn(a.fn.node, a.fn.node.parameters.map(() => recv && (recv.d || recv.l.size) ? recv : clean()), a.fn.env)
    const l = [recv, ...av].filter(Boolean).reduce((s, a) => joinL(s, a.l), new Set())
    return new V({ l, d: [recv, ...av].some(a => a?.d), from: [recv, ...av].find(a => a?.from)?.from })
  }

  builtin(e, m, recv, argv, env) {
    const cb = (fv, ...a) => this.apply(fv, a, env)
    switch (m) {
      case 'replace': case 'replaceAll': return this.replace(e, m, recv, env)
      case 'toISOString': case 'toFixed': case 'charCodeAt': case 'codePointAt': case 'indexOf': case 'lastIndexOf': case 'includes': case 'startsWith': case 'endsWith': case 'localeCompare': case 'test': case 'has': case 'every': case 'some': case 'getTime':
        e.arguments.forEach((_, i) => { const a = argv(i); if (a.fn) cb(a, elem(recv), clean()) })
        return clean()
      case 'slice': case 'substring': case 'substr':
        e.arguments.forEach((_, i) => argv(i))
        return recv.x.size ? new V({ ...recv, l: joinL(recv.l, recv.x), c: undefined }) : new V({ ...recv, c: undefined, also: [recv] })
      case 'trim': case 'trimEnd': case 'trimStart': case 'charAt': case 'at': case 'toUpperCase': case 'toLowerCase': case 'normalize': case 'toString': case 'valueOf': case 'padStart': case 'padEnd': case 'repeat': case 'toLocaleString':
        e.arguments.forEach((_, i) => argv(i))
        if (m === 'at' && (recv.e || recv.f)) return elem(recv)
        return typeof recv.c === 'string' ? recv : new V({ ...recv, c: undefined })
      case 'split': {
        const c = argv(0).c
        const l = new Set(recv.l)
        if (typeof c === 'string' && c.length === 1) l.delete(c)
        else if (e.arguments[0]) { const re = this.regexOf(e.arguments[0], env); if (re) for (const ch of recv.l) if (Strings.hit(re, ch)) l.delete(ch) }
        return new V({ e: new V({ l, x: recv.x, from: recv.from, was: recv.was, one: c === '' }) })
      }
      case 'join': {
        const sep = e.arguments[0] ? argv(0) : known(',')
        const el = elem(recv)
        const l = new Set(joinL(el.l, sep.l))
        const x = new Set(el.x)
        if (typeof sep.c === 'string') for (const c of sep.c) if (ALL.includes(c)) x.add(c)
        return new V({ l, x: el.l.size || el.x.size || recv.e?.from ? x : new Set(), from: el.from, at: el.at })
      }
      case 'map': case 'flatMap': {
        const fv = argv(0)
        const r = cb(fv, elem(recv), clean(), recv) ?? (ts.isIdentifier(strip(e.arguments[0])) && ['String'].includes(e.arguments[0].getText()) ? elem(recv) : ['Number', 'Boolean'].includes(e.arguments[0].getText()) ? clean() : elem(recv))
        return new V({ e: m === 'flatMap' ? elem(r) : r })
      }
      case 'filter': case 'sort': case 'reverse': case 'toSorted': case 'toReversed': {
        if (e.arguments[0]) cb(argv(0), elem(recv), elem(recv))
        return recv
      }
      case 'find': case 'pop': case 'shift': case 'findLast': if (e.arguments[0]) cb(argv(0), elem(recv), clean()); return recv.d && !recv.e ? recv : elem(recv)
      case 'forEach': { const fv = argv(0); for (let i = 0; i < 2; i++) { if (recv.isMap) cb(fv, recv.e ?? clean(), recv.k); else cb(fv, elem(recv), clean()) } return clean() }
      case 'reduce': { let acc = e.arguments[1] ? argv(1) : elem(recv); for (let i = 0; i < 3; i++) acc = join(acc, cb(argv(0), acc, elem(recv), clean()) ?? clean()); return acc }
      case 'push': case 'unshift': case 'add': {
        e.arguments.forEach(a => { const v = ts.isSpreadElement(a) ? this.iter(this.ev(a.expression, env)) : this.ev(a, env); addElem(recv, v) })
        return clean()
      }
      case 'concat': {
        if (recv.e || recv.f) { const v = new V({ e: elem(recv) }); e.arguments.forEach((_, i) => { const a = argv(i); addElem(v, a.e || a.f ? elem(a) : a) }); return v }
        return this.compose([{ e: e.expression.expression, v: recv }, ...e.arguments.map(a => { const v = this.ev(a, env); return typeof v.c === 'string' ? v.c : { e: a, v } })], e)
      }
      case 'set': { const k = argv(0), v = argv(1); if (recv.isMap || recv.k) { mutate(recv, o => { o.isMap = true; o.k = join(o.k, k); o.e = join(o.e, v) }); return recv } return null }
      case 'get': if (recv.isMap || recv.k || recv.also.some(a => a.isMap)) { argv(0); const r = recv.e ?? UNDEF(); return r } return null
      case 'keys': if (recv.isMap) return new V({ e: recv.k }); return recv.e ? new V({ e: clean() }) : null
      case 'values': return recv.isMap || recv.e ? new V({ e: recv.e ?? clean() }) : null
      case 'entries': if (recv.isMap) return new V({ e: new V({ f: new Map([['0', recv.k], ['1', recv.e ?? clean()]]) }) }); return recv.e ? new V({ e: new V({ f: new Map([['0', clean()], ['1', elem(recv)]]) }) }) : null
      case 'encode': case 'decode': { const a = argv(0); return a }
      case 'then': case 'catch': case 'finally': { const fv = argv(0); return m === 'then' ? cb(fv, recv) ?? recv : recv }
    }
    return null
  }

  replace(e, m, recv, env) {
    if (typeof recv.c === 'string' && !recv.l.size) { e.arguments.forEach(a => this.ev(a, env)); return new V({}) }
    const pat = e.arguments[0], rep = e.arguments[1]
    const l = new Set(recv.l), x = new Set(recv.x)
    const re = this.regexOf(pat, env)
    const pc = re ? null : this.ev(pat, env).c
    const all = re ? re.flags.includes('g') : m === 'replaceAll'
    const rv = rep ? this.ev(rep, env) : UNDEF()
    const matches = c => re ? Strings.hit(re, c) : pc === c
    for (const c of ALL) {
      if (!matches(c)) continue
      const out = rv.fn ? this.callFn(rv.fn.node, [known(c)], rv.fn.env, rv.fn.self).c : typeof rv.c === 'string' ? rv.c.replace(/\$&/g, c).replace(/\$\$/g, '$') : undefined
      // re-escaping what escaping has put there corrupts the earlier escapes
      if (recv.x.has(c) && out !== undefined && out !== c) for (const y of recv.was ?? ALL) if (recv.x.has(c)) l.add(y === c ? c : y)
      if (!recv.l.has(c)) continue
      if (all && typeof out === 'string' && out !== c) {
        l.delete(c)
        for (const ch of out) if (ALL.includes(ch) && out.length > 1) x.add(ch)
      }
    }
    // undoing an escape: the replacement puts back what was neutralised
    if (typeof rv.c === 'string' && !ALL.some(matches)) for (const ch of rv.c) if (recv.was?.has(ch)) l.add(ch)
    const v = withL(recv, l, x)
    v.was = new Set([...(recv.was ?? []), ...[...recv.l].filter(c => !l.has(c))])
    return v
  }

  /** Concatenation: each spliced value is judged in the context that the surrounding text gives it. */
  compose(parts, node) {
    const fmt = this.o.format
    let l = new Set(), x = new Set(), from = null, at = null, was = null
    let q = null        // open quote
    let tag = fmt === 'xml' ? 'unknown' : null
    let text = ''
    let constant = true
    for (const p of parts) {
      if (typeof p === 'string') {
        text += p
        for (const ch of p) {
          if (ALL.includes(ch)) x.add(ch)
          if (fmt === 'xml') {
            if (q) { if (ch === q) q = null; continue }
            if (ch === '<') tag = 'tag'
            else if (ch === '>') tag = 'text'
            else if (tag === 'tag' && (ch === '"' || ch === "'")) q = ch
          } else if (fmt === 'sql') {
            if (q) { if (ch === q) q = null } else if (ch === "'" || ch === '"' || ch === '`') q = ch
          } else if (fmt === 'csv' || fmt === 'json' || fmt === 'ndjson') {
            if (ch === '"') q = q ? null : '"'
          }
        }
        continue
      }
      constant = false
      const v = p.v
      from ??= v.from
      for (const c of v.x) x.add(c)
      if (v.was) was = new Set([...(was ?? []), ...v.was])
      if (!v.l.size) continue
      let danger
      if (fmt === 'sql') danger = q ? [q, ...(this.o.mysql && q !== '`' ? ['\\'] : [])] : null
      else if (fmt === 'csv') danger = q ? ['"'] : null
      else if (fmt === 'xml') danger = q ? [q, '<', '&'] : tag === 'text' ? ['<', '&'] : null
      else danger = null
      if (fmt === 'xml' && !q && tag === 'tag' && [...v.l].some(c => c !== '-' && c !== ':')) { l.add(BROKEN); at ??= v.at ?? p.e }
      if (q && danger?.some(c => v.l.has(c))) { l.add(BROKEN); at ??= v.at ?? p.e }
      for (const c of v.l) if (!danger || danger.includes(c)) { l.add(c); at ??= v.at ?? p.e }
    }
    return new V({ l, x: from || l.size ? x : new Set(), from, at, was, c: constant ? text : undefined })
  }
}
function method(recv, m) {
  const d = recv.cls.members.find(x => ts.isMethodDeclaration(x) && x.name.getText() === m)
  return d ? new V({ fn: { node: d, env: null, self: recv } }) : null
}
function deep(v, n = 0) { if (!v || n > 4) return false; if (v.l.size || v.d) return true; if (deep(v.e, n + 1) || deep(v.k, n + 1)) return true; for (const x of v.f?.values() ?? []) if (deep(x, n + 1)) return true; return false }
export { deep, join as joinV, elem as elemOf }
export function nameOf(e) { e = strip(e); return ts.isPropertyAccessExpression(e) ? e.name.text : ts.isIdentifier(e) ? e.text : null }
