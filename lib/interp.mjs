// Structured abstract interpreter over the syntax tree.
//
// State = { must, may } fact sets (must joins by intersection, may by union);
// null = unreachable. Conditions are split through && || ! ?: and through
// boolean helpers, callees are inlined (bounded, type-resolved), and branch
// conditions whose value is fixed by constant propagation under the client's
// assumptions prune the other branch.
import nodePath from 'node:path'
import { ts, strip, stripAwait, isFnLike, isAsync, isGenerator, mkCtx, enclosingFn, walkNodes } from './world.mjs'
const K = ts.SyntaxKind

export const EMPTY = { must: new Set(), may: new Set() }
export function join(a, b) {
  if (!a) return b
  if (!b || a === b) return a
  const must = new Set()
  for (const x of a.must) if (b.must.has(x)) must.add(x)
  let may = a.may
  for (const x of b.may) if (!may.has(x)) { may = new Set(a.may); for (const y of b.may) may.add(y); break }
  return { must, may }
}
export function eqState(a, b) {
  if (a === b) return true
  if (!a || !b) return false
  if (a.must.size !== b.must.size || a.may.size !== b.may.size) return false
  for (const x of a.must) if (!b.must.has(x)) return false
  for (const x of a.may) if (!b.may.has(x)) return false
  return true
}
export function addMust(st, ...fs) {
  if (!st) return st
  if (fs.every(f => st.must.has(f) && st.may.has(f))) return st
  return { must: new Set([...st.must, ...fs]), may: new Set([...st.may, ...fs]) }
}
export function addMay(st, ...fs) {
  if (!st) return st
  if (fs.every(f => st.may.has(f))) return st
  return { must: st.must, may: new Set([...st.may, ...fs]) }
}
export function drop(st, ...fs) {
  if (!st) return st
  const must = new Set(st.must); for (const f of fs) must.delete(f)
  return { must, may: st.may }
}
export function clearFacts(st, ...fs) {
  if (!st) return st
  const must = new Set(st.must), may = new Set(st.may)
  for (const f of fs) { must.delete(f); may.delete(f) }
  return { must, may }
}

const UNKNOWN = null
let defs = 0
const ITERATORS = new Set(['forEach', 'map', 'filter', 'some', 'every', 'find', 'findIndex', 'reduce', 'flatMap', 'sort', 'then', 'catch', 'finally', 'from'])

export class Interp {
  /**
   * client: {
   *   isEvent(node) -> bool          which nodes make a function worth inlining
   *   onCall(call, st, ctx, api) -> {st, throwSt?, opaque?} | undefined
   *   onRaise(call, st, ctx, api) -> state an unresolved call raises with
   *   onAtom(expr, polarity, st, ctx, api) -> st | null
   *   onExpr(node, st, ctx, api)     observation only
   *   onReturn(node, st, ctx), onThrow(node, st, ctx)
   *   assume(expr, ctx, api) -> {vals:[...]} | undefined   constant assumptions
   * }
   */
  constructor(world, client, opts = {}) {
    this.w = world
    this.client = client
    this.maxDepth = opts.maxDepth ?? 7
    this.opaqueIface = new Set(opts.opaqueIface ?? ['NoydbStore'])
    this.relevant = null
    this.stats = { inlined: 0, conds: 0, calls: 0, opaque: 0 }
    this._constBusy = new Set()
    this.pure = 0
  }
  // ── relevance ─────────────────────────────────────────────────────────
  _computeRelevant() {
    if (this.relevant) return this.relevant
    const w = this.w
    const direct = new Set()
    const callsOf = new Map()
    for (const fn of w.fns) {
      let rel = false
      const calls = []
      const rec = n => {
        if (n !== fn && isFnLike(n)) {
          // nested function literals count for their owner as well (callbacks)
          ts.forEachChild(n, rec)
          return
        }
        if (!rel && this.client.isEvent?.(n)) rel = true
        if (ts.isCallExpression(n) || ts.isNewExpression(n)) calls.push(n)
        ts.forEachChild(n, rec)
      }
      ts.forEachChild(fn, rec)
      if (rel) direct.add(fn)
      callsOf.set(fn, calls)
    }
    // reverse propagation
    const callers = new Map()
    for (const [fn, calls] of callsOf) for (const c of calls) {
      for (const t of w.resolveCall(c, null, { opaqueIface: this.opaqueIface, allCallers: false })) {
        const s = callers.get(t.fn) ?? new Set(); s.add(fn); callers.set(t.fn, s)
      }
    }
    const rel = new Set(direct)
    const work = [...direct]
    while (work.length) {
      const f = work.pop()
      for (const c of callers.get(f) ?? []) if (!rel.has(c)) { rel.add(c); work.push(c) }
      // the function a closure is defined in
    }
    this.relevant = rel
    return rel
  }
  isRelevant(fn) { return this._computeRelevant().has(fn) }
  // ── running ───────────────────────────────────────────────────────────
  run(fn, st = EMPTY, ctx = null) {
    const frame = ctx ?? mkCtx(fn)
    return this._fn(fn, st, frame, 0)
  }
  _fn(fn, st, ctx, depth) {
    const f = { fn, ctx, depth, throwSt: null, normal: null, retT: null, retF: null, yields: null, vals: [], valUnknown: false, completes: false }
    if (ctx && !this.pure) ctx.live = true
    if (!this.pure) for (const p of fn.parameters) if (ts.isIdentifier(p.name) && this._tracked(p)) st = this._define(p, 'init', st)
    if (ts.isArrowFunction(fn) && !ts.isBlock(fn.body)) {
      this._return(fn.body, st, f, fn.body)
    } else {
      let s = st
      // parameter defaults
      for (const p of fn.parameters) if (p.initializer) s = this.expr(p.initializer, s, f)
      const out = this.block(fn.body.statements, s, f)
      if (out) {
        f.normal = join(f.normal, out); f.retF = join(f.retF, out)
        this._val(f, { vals: [undefined] })
        if (!this.pure) this.client.onReturn?.(fn, out, ctx, this)
      }
    }
    return f
  }
  _val(f, v) {
    if (v === UNKNOWN) f.valUnknown = true
    else for (const x of v.vals) if (!f.vals.some(y => Object.is(y, x))) f.vals.push(x)
  }
  _return(e, st, f, node) {
    if (!e) {
      this._val(f, { vals: [undefined] })
      f.retF = join(f.retF, st); f.normal = join(f.normal, st)
      if (!this.pure) this.client.onReturn?.(node, st, f.ctx, this)
      return
    }
    const c = this.cond(e, st, f)
    const s = join(c.t, c.f)
    if (!s) return
    this.curSt = s
    f.retT = join(f.retT, c.t); f.retF = join(f.retF, c.f); f.normal = join(f.normal, s)
    if (this.pure || this.collectVals) { if (s) this.curSt = s; const lit = stripAwait(e); this._val(f, ts.isObjectLiteralExpression(lit) ? { vals: [new AbsObj(lit, f.ctx)] } : this.constEval(e, f.ctx)) }
    if (!this.pure) this.client.onReturn?.(node, s, f.ctx, this)
  }
  _throwAt(st, f) { if (st) f.throwSt = join(f.throwSt, st) }
  // ── statements ────────────────────────────────────────────────────────
  block(stmts, st, f) {
    for (const s of stmts) { if (!st) return null; st = this.stmt(s, st, f) }
    return st
  }
  stmt(s, st, f, labels = []) {
    if (!st) return null
    this.curSt = st
    switch (s.kind) {
      case K.Block: return this.block(s.statements, st, f)
      case K.VariableStatement: return this.varDecls(s.declarationList, st, f)
      case K.ExpressionStatement: return this.expr(s.expression, st, f)
      case K.IfStatement: {
        const c = this.cond(s.expression, st, f)
        const a = c.t ? this.stmt(s.thenStatement, c.t, f) : null
        const b = c.f ? (s.elseStatement ? this.stmt(s.elseStatement, c.f, f) : c.f) : null
        return join(a, b)
      }
      case K.ReturnStatement: this._return(s.expression, st, f, s); return null
      case K.ThrowStatement: {
        st = this.expr(s.expression, st, f)
        if (st) { const t = this.pure ? null : this.client.onThrow?.(s, st, f.ctx, this); this._throwAt(t?.must ? t : st, f) }
        return null
      }
      case K.TryStatement: return this.tryStmt(s, st, f)
      case K.WhileStatement: return this.loop(f, st, labels, { cond: s.expression, body: s.statement })
      case K.DoStatement: return this.loop(f, st, labels, { cond: s.expression, body: s.statement, post: true })
      case K.ForStatement: {
        if (s.initializer) st = ts.isVariableDeclarationList(s.initializer) ? this.varDecls(s.initializer, st, f) : this.expr(s.initializer, st, f)
        if (this.pure || this.collectVals) { const u = this._unrollFor(s, st, f, labels); if (u !== undefined) return u }
        return this.loop(f, st, labels, { cond: s.condition, body: s.statement, inc: s.incrementor, always: !s.condition, atLeast: this._counted(s, f.ctx) })
      }
      case K.ForOfStatement: case K.ForInStatement: {
        if ((this.pure || this.collectVals) && s.kind === K.ForOfStatement) { const u = this._unroll(s, st, f, labels); if (u !== undefined) return u }
        const genOut = { y: undefined }
        st = this.expr(s.expression, st, f, genOut)
        return this.loop(f, st, labels, { body: s.statement, each: true, bodyIn: genOut.y, node: s, once: s.kind === K.ForOfStatement && this._nonEmpty(s.expression, f.ctx) })
      }
      case K.SwitchStatement: return this.switchStmt(s, st, f, labels)
      case K.LabeledStatement: return this.stmt(s.statement, st, f, [...labels, s.label.text])
      case K.BreakStatement: case K.ContinueStatement: {
        const isBreak = s.kind === K.BreakStatement
        for (let i = (f.targets?.length ?? 0) - 1; i >= 0; i--) {
          const t = f.targets[i]
          if (s.label ? t.labels.includes(s.label.text) : (isBreak ? true : t.isLoop)) {
            if (isBreak) t.brk = join(t.brk, st); else t.cont = join(t.cont, st)
            // finally blocks between are approximated as executed in tryStmt
            break
          }
        }
        return null
      }
      case K.FunctionDeclaration: case K.ClassDeclaration: case K.EmptyStatement: case K.InterfaceDeclaration: case K.TypeAliasDeclaration: return st
      default: {
        return st
      }
    }
  }
  varDecls(list, st, f) {
    for (const d of list.declarations) {
      if (d.initializer) st = this.expr(d.initializer, st, f)
      if (!ts.isIdentifier(d.name)) {
        const rec = p => { for (const el of p.elements) { if (ts.isOmittedExpression(el)) continue; if (el.initializer) { const s2 = this.expr(el.initializer, st, f); st = join(st, s2) } if (!ts.isIdentifier(el.name)) rec(el.name) } }
        rec(d.name)
      }
      if (st && !this.pure && this._tracked(d)) st = this._define(d, 'init', st)
      if (st && this._accum(d)) st = clearFacts(st, `filled#${d.pos}`)
      if (st && !this.pure) { const o = this.client.onDecl?.(d, st, f.ctx, this); if (o && o.must) st = o }
      if (!st) return null
    }
    return st
  }
  loop(f, st, labels, o) {
    if (!st) return null
    const tgt = { labels, isLoop: true, brk: null, cont: null }
    f.targets = [...(f.targets ?? []), tgt]
    let head = st, exit = null
    // turns whose condition is known to hold, one by one
    if (this.collectVals && !this.pure && o.cond && !o.post && strip(o.cond).kind !== K.TrueKeyword) for (let i = 0; i < 10 && head; i++) {
      this.curSt = head
      const v = this.constEval(o.cond, f.ctx)
      if (v?.vals.length !== 1 || !v.vals[0]) break
      tgt.cont = null
      const c = this.cond(o.cond, head, f)
      head = join(c.t ? this.stmt(o.body, c.t, f) : null, tgt.cont)
      if (o.inc && head) head = this.expr(o.inc, head, f)
    }
    if (!head) { f.targets = f.targets.slice(0, -1); return tgt.brk }
    for (let i = 0; i < 12; i++) {
      tgt.cont = null
      let bin, out = null
      if (o.each) { bin = o.bodyIn !== undefined ? join2(o.bodyIn, i ? head : null) : head; if (!o.once || i) exit = join(exit, head) }
      else if (o.post) { bin = head }
      else if (o.cond) { const c = this.cond(o.cond, head, f); bin = c.t; if (!(o.atLeast && i === 0)) exit = join(exit, c.f) }
      else bin = head
      out = bin ? this.stmt(o.body, bin, f) : null
      out = join(out, tgt.cont)
      if (o.post && out) { const c = this.cond(o.cond, out, f); exit = join(exit, c.f); out = c.t }
      if (o.inc && out) out = this.expr(o.inc, out, f)
      if ((o.once || o.atLeast) && i === 0) { if (!out) break; head = out; continue }
      const nh = join(head, out)
      if (eqState(nh, head)) break
      head = nh
    }
    f.targets = f.targets.slice(0, -1)
    return join(exit, tgt.brk)
  }
  /** The array certainly has an element: a literal with elements that is never shortened. */
  _nonEmpty(e, ctx) {
    const id = strip(e)
    if (this.client.nonEmpty?.(id, ctx, this)) return true
    const lit = x => { x = strip(x); return x && ts.isArrayLiteralExpression(x) && x.elements.some(y => !ts.isSpreadElement(y) && !ts.isOmittedExpression(y)) }
    if (lit(id)) return true
    if (ts.isNewExpression(id) && /^Set$/.test(strip(id.expression).getText()) && id.arguments?.[0]) return this._nonEmpty(id.arguments[0], ctx)
    if (ts.isArrayLiteralExpression(id)) return id.elements.some(y => ts.isSpreadElement(y) && this._nonEmpty(y.expression, ctx))
    if (!ts.isIdentifier(id)) return false
    const s = this.w.sym(id), d = s?.valueDeclaration
    if (d && ts.isParameter(d) && !this.w.assignmentsOf(s).length) {
      const a = this.w.argFor(d, ctx)
      if (!a?.expr) return false
      let shrinks = false
      walkNodes(d.parent, n => { if (ts.isPropertyAccessExpression(n) && ts.isIdentifier(strip(n.expression)) && this.w.sym(strip(n.expression)) === s && /^(pop|shift|splice)$/.test(n.name.text)) shrinks = true })
      return !shrinks && this._nonEmpty(a.expr, a.ctx)
    }
    if (!d || !ts.isVariableDeclaration(d) || !d.initializer || !lit(d.initializer) || this.w.assignmentsOf(s).length) return false
    let shrinks = false
    const scope = enclosingFn(d) ?? d.getSourceFile()
    walkNodes(scope, n => { if (ts.isPropertyAccessExpression(n) && ts.isIdentifier(strip(n.expression)) && this.w.sym(strip(n.expression)) === s && /^(pop|shift|splice|length)$/.test(n.name.text) && !(n.name.text === 'length' && !(ts.isBinaryExpression(n.parent) && n.parent.left === n && n.parent.operatorToken.kind === K.EqualsToken))) shrinks = true })
    return !shrinks
  }
  /** for (let i = 0; i < xs.length; …) over an array that certainly has an element. */
  _counted(s, ctx) {
    const d = s.initializer && ts.isVariableDeclarationList(s.initializer) ? s.initializer.declarations[0] : null
    const c = s.condition && strip(s.condition)
    if (!d?.initializer || strip(d.initializer).getText() !== '0' || !c || !ts.isBinaryExpression(c) || c.operatorToken.kind !== K.LessThanToken) return false
    const r = strip(c.right)
    return ts.isIdentifier(strip(c.left)) && strip(c.left).text === d.name.getText() && ts.isPropertyAccessExpression(r) && r.name.text === 'length' && this._nonEmpty(r.expression, ctx)
  }
  /** for-of over a known array: one pass per element with the loop variable bound. */
  _unroll(s, st, f, labels) {
    const dl = ts.isVariableDeclarationList(s.initializer) ? s.initializer.declarations[0] : null
    const simple = x => ts.isOmittedExpression(x) || (ts.isBindingElement(x) && ts.isIdentifier(x.name) && !x.dotDotDotToken && !x.initializer)
    const pat = dl && (ts.isArrayBindingPattern(dl.name) || ts.isObjectBindingPattern(dl.name)) && dl.name.elements.every(simple) ? dl.name : null
    if (!dl || !(ts.isIdentifier(dl.name) || pat)) return undefined
    let v = this.constEval(s.expression, f.ctx) ?? this._arrayOf(s.expression, f.ctx, 0)
    if (v?.vals.length === 1 && (v.vals[0] instanceof Map || v.vals[0] instanceof Set)) v = { vals: [[...v.vals[0]]] }
    if (!v || v.vals.length !== 1 || !Array.isArray(v.vals[0]) || v.vals[0].length > 8 || v.vals[0].includes(UNSURE)) return undefined
    const obj = pat && ts.isObjectBindingPattern(pat)
    if (pat && !v.vals[0].every(x => obj ? x && typeof x === 'object' && (x instanceof AbsObj || Object.getPrototypeOf(x) === Object.prototype) : Array.isArray(x))) return undefined
    const member = (x, n) => { if (!(x instanceof AbsObj)) return { vals: [x[n]] }; const p = x.lit.properties.find(q => q.name?.getText() === n); const v = x.get(n, this, 0); return v ?? (p && ts.isPropertyAssignment(p) && ts.isObjectLiteralExpression(strip(p.initializer)) ? { vals: [new AbsObj(strip(p.initializer), x.ctx)] } : null) }
    if (obj && v.vals[0].some(x => x instanceof AbsObj && pat.elements.some(b => member(x, (b.propertyName ?? b.name).text)?.vals.length !== 1))) return undefined
    const each = x => pat ? pat.elements.map((b, i) => [b, obj ? member(x, (b.propertyName ?? b.name).text).vals[0] : x[i]]).filter(b => ts.isBindingElement(b[0])) : [[dl, x]]
    return this._turns(v.vals[0].map(each), s.statement, st, f, labels)
  }
  /** for (let i = a; i < n; i++) with known bounds, turn by turn. */
  _unrollFor(s, st, f, labels) {
    const dls = s.initializer && ts.isVariableDeclarationList(s.initializer) ? s.initializer.declarations : null
    if (!dls?.length || !s.condition || !s.incrementor) return undefined
    const inc = strip(s.incrementor), c = strip(s.condition)
    const iv = ts.isPostfixUnaryExpression(inc) || ts.isPrefixUnaryExpression(inc) ? strip(inc.operand) : ts.isBinaryExpression(inc) && inc.operatorToken.kind === K.PlusEqualsToken && strip(inc.right).getText() === '1' ? strip(inc.left) : null
    if (!iv || !ts.isIdentifier(iv) || (inc.operator !== undefined && inc.operator !== K.PlusPlusToken && inc.operator !== K.MinusMinusToken)) return undefined
    const dl = dls.find(d => ts.isIdentifier(d.name) && d.name.text === iv.text)
    if (!dl || !dl.initializer || !ts.isBinaryExpression(c)) return undefined
    let wr = false
    walkNodes(s.statement, n => { if ((ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment && strip(n.left).getText() === iv.text) || ((ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n)) && n.operator !== K.ExclamationToken && strip(n.operand).getText() === iv.text)) wr = true })
    if (wr) return undefined
    const i0 = this.constEval(dl.initializer, f.ctx)
    if (i0?.vals.length !== 1 || typeof i0.vals[0] !== 'number') return undefined
    const d = inc.operator === K.MinusMinusToken ? -1 : 1
    const turns = []
    const ctx0 = f.ctx
    for (let i = i0.vals[0]; ; i += d) {
      const v = this.constEval(s.condition, this._bound(ctx0, [[dl, i]]))
      if (v?.vals.length !== 1) return undefined
      if (!v.vals[0]) break
      if (turns.length >= 8) return undefined
      turns.push([[dl, i]])
    }
    return this._turns(turns, s.statement, st, f, labels)
  }
  _bound(ctx0, pairs) { return { fn: ctx0.fn, call: ctx0.call, parent: ctx0.parent, defCtx: ctx0.defCtx, cbOf: ctx0.cbOf, depth: ctx0.depth, live: ctx0.live, bind: new Map([...(ctx0.bind ?? []), ...pairs]) } }
  _turns(turns, body, st, f, labels) {
    const tgt = { labels, isLoop: true, brk: null, cont: null }
    f.targets = [...(f.targets ?? []), tgt]
    const ctx0 = f.ctx
    let cur = st
    for (const b of turns) {
      if (!cur) break
      tgt.cont = null
      f.ctx = this._bound(ctx0, b)
      const out = this.stmt(body, cur, f)
      cur = join(out, tgt.cont)
    }
    f.ctx = ctx0
    f.targets = f.targets.slice(0, -1)
    return join(cur, tgt.brk)
  }
  switchStmt(s, st, f, labels) {
    st = this.expr(s.expression, st, f)
    if (!st) return null
    const tgt = { labels, isLoop: false, brk: null, cont: null }
    f.targets = [...(f.targets ?? []), tgt]
    const disc = this.constEval(s.expression, f.ctx)
    let cur = st // state flowing to later case tests
    let fall = null
    let defIn = null
    const clauses = s.caseBlock.clauses
    let anyDefault = false, intoDefault = null
    for (const cl of clauses) {
      let enter = null
      if (ts.isCaseClause(cl)) {
        if (cur) {
          const cv = this.constEval(cl.expression, f.ctx)
          let canT = true, canF = true
          if (disc && cv && cv.vals.length === 1) {
            canT = disc.vals.some(v => v === cv.vals[0]); canF = disc.vals.some(v => v !== cv.vals[0])
          }
          enter = canT ? this.atomSwitch(s.expression, cl.expression, true, cur, f) : null
          cur = canF ? this.atomSwitch(s.expression, cl.expression, false, cur, f) : null
        }
      } else { anyDefault = true; defIn = cl }
      if (ts.isDefaultClause(cl)) { intoDefault = fall; fall = null; continue }
      const inSt = join(enter, fall)
      fall = inSt ? this.block(cl.statements, inSt, f) : null
    }
    let out = null
    if (anyDefault) {
      const idx = clauses.indexOf(defIn)
      const din = join(cur, intoDefault)
      let d = din ? this.block(defIn.statements, din, f) : null
      for (let i = idx + 1; i < clauses.length && d; i++) d = this.block(clauses[i].statements, d, f)
      out = d
      out = join(out, fall)
    } else {
      const exhaustive = this._exhaustive(s)
      out = join(exhaustive ? null : cur, fall)
    }
    f.targets = f.targets.slice(0, -1)
    return join(out, tgt.brk)
  }
  _exhaustive(s) {
    const t = this.w.checker.getTypeAtLocation(s.expression)
    if (!t.isUnion?.()) return false
    const want = new Set()
    for (const x of t.types) { if (x.isStringLiteral?.() || x.isNumberLiteral?.()) want.add(x.value); else return false }
    for (const c of s.caseBlock.clauses) if (ts.isCaseClause(c)) { const v = this.constEval(c.expression, null); if (v && v.vals.length === 1) want.delete(v.vals[0]) }
    return want.size === 0
  }
  atomSwitch(l, r, pol, st, f) {
    if (!this.client.onEq) return st
    return this.client.onEq(l, r, pol, st, f.ctx, this)
  }
  tryStmt(s, st, f) {
    const saved = f.throwSt
    f.throwSt = null
    const savedRet = { normal: f.normal, retT: f.retT, retF: f.retF }
    f.normal = f.retT = f.retF = null
    let out = this.block(s.tryBlock.statements, st, f)
    let thrown = f.throwSt
    f.throwSt = null
    if (s.catchClause) {
      if (thrown) {
        let cin = thrown
        if (this.client.onCatch && !this.pure) { const o = this.client.onCatch(s.catchClause, cin, f.ctx, this); cin = o === false ? null : o ?? cin }
        const co = !cin ? null : this.block(s.catchClause.block.statements, cin, f)
        out = join(out, co)
      }
      thrown = f.throwSt
      f.throwSt = null
    }
    let ret = { normal: f.normal, retT: f.retT, retF: f.retF }
    if (s.finallyBlock) {
      const fin = x => (x ? this.block(s.finallyBlock.statements, x, f) : null)
      const oldN = f.normal
      f.normal = f.retT = f.retF = null
      out = fin(out)
      const tfin = fin(thrown)
      const ext = f.throwSt
      f.throwSt = null
      thrown = join(tfin, ext)
      const n2 = fin(ret.normal)
      ret = { normal: n2 ? n2 : null, retT: ret.retT ? fin(ret.retT) : null, retF: ret.retF ? fin(ret.retF) : null }
      thrown = join(thrown, f.throwSt); f.throwSt = null
    }
    f.normal = join(savedRet.normal, join(ret.normal, s.finallyBlock ? f.normal : null))
    f.retT = join(savedRet.retT, ret.retT)
    f.retF = join(savedRet.retF, ret.retF)
    f.throwSt = join(saved, thrown)
    return out
  }
  // ── expressions ───────────────────────────────────────────────────────
  _await(e, st, f) { return st && !this.pure ? this.client.onAwait?.(e, st, f.ctx, this) ?? st : st }
  expr(e, st, f, gen) {
    if (!st || !e) return st
    this.curSt = st
    if (!this.pure) this.client.onExpr?.(e, st, f.ctx, this)
    switch (e.kind) {
      case K.ParenthesizedExpression: case K.AsExpression: case K.NonNullExpression: case K.SatisfiesExpression: case K.TypeAssertionExpression:
        return this.expr(e.expression, st, f, gen)
      case K.AwaitExpression: {
        const inner = strip(e.expression)
        if (ts.isIdentifier(inner)) {
          if (!this.pure) this.client.onExpr?.(inner, st, f.ctx, this)
          const d = this.w.declOf(inner)
          if (d && ts.isVariableDeclaration(d) && d.initializer && (d.parent.flags & ts.NodeFlags.Const)) {
            const ini = strip(d.initializer)
            if (ts.isCallExpression(ini) && !this.pure) { const s2 = this.call(ini, st, f, { awaited: true, replay: true }); if (s2) st = s2 }
          }
          return this._await(e, st, f)
        }
        return this._await(e, this.expr(e.expression, st, f, gen), f)
      }
      case K.BinaryExpression: {
        const op = e.operatorToken.kind
        if (op === K.AmpersandAmpersandToken || op === K.BarBarToken) { const c = this.cond(e, st, f); return join(c.t, c.f) }
        if (op === K.QuestionQuestionToken) {
          st = this.expr(e.left, st, f)
          if (!st) return null
          this.curSt = st
          const lv = this.constEval(e.left, f.ctx)
          if (lv && lv.vals.every(v => v !== null && v !== undefined)) return st
          const r = this.expr(e.right, st, f)
          return lv && lv.vals.every(v => v === null || v === undefined) ? r : join(st, r)
        }
        if (op === K.AmpersandAmpersandEqualsToken || op === K.BarBarEqualsToken || op === K.QuestionQuestionEqualsToken) {
          st = this.expr(e.left, st, f)
          this.curSt = st
          const lv = st && this.constEval(e.left, f.ctx)
          const skip = v => op === K.QuestionQuestionEqualsToken ? v !== null && v !== undefined : op === K.BarBarEqualsToken ? !!v : !v
          if (lv && lv.vals.length && lv.vals.every(skip)) return st
          let r = this.expr(e.right, st, f)
          if (r && !this.pure && ts.isIdentifier(strip(e.left))) { const d = this.w.declOf(strip(e.left)); if (d && this._tracked(d)) r = this._define(d, e.pos, r) }
          const s2 = lv && lv.vals.length && !lv.vals.some(skip) ? r : join(st, r)
          if (!this.pure && s2) { const o = this.client.onAssign?.(e, s2, f.ctx, this); if (o) return o }
          return s2
        }
        if (op >= K.FirstAssignment && op <= K.LastAssignment) {
          const l = strip(e.left)
          if (ts.isPropertyAccessExpression(l) || ts.isElementAccessExpression(l)) { st = this.expr(l.expression, st, f); if (ts.isElementAccessExpression(l)) st = this.expr(l.argumentExpression, st, f) }
          st = this.expr(e.right, st, f)
          if (st && this.trackMembers && op === K.EqualsToken && ts.isPropertyAccessExpression(l) && l.expression.kind === K.ThisKeyword) st = this._setMember(l, e.right, st, f.ctx)
          if (st && !this.pure && ts.isIdentifier(l)) { const d = this.w.declOf(l); if (d && this._tracked(d)) st = this._define(d, op === K.EqualsToken ? this._at(d, e.pos, e.right, st, f.ctx) : op === K.PlusEqualsToken || op === K.MinusEqualsToken ? this._step(l, e.pos, e.right, st, f.ctx, op) : e.pos, st) }
          if (st && !this.pure) { const o = this.client.onAssign?.(e, st, f.ctx, this); if (o !== undefined && o !== null) st = o }
          return st
        }
        st = this.expr(e.left, st, f); st = this.expr(e.right, st, f)
        return st
      }
      case K.ConditionalExpression: {
        const c = this.cond(e.condition, st, f)
        return join(c.t ? this.expr(e.whenTrue, c.t, f) : null, c.f ? this.expr(e.whenFalse, c.f, f) : null)
      }
      case K.PrefixUnaryExpression:
        if (e.operator === K.ExclamationToken) { const c = this.cond(e, st, f); return join(c.t, c.f) }
      // fallthrough
      case K.PostfixUnaryExpression: {
        st = this.expr(e.operand, st, f)
        if (st && !this.pure && (e.operator === K.PlusPlusToken || e.operator === K.MinusMinusToken) && ts.isIdentifier(strip(e.operand))) { const d = this.w.declOf(strip(e.operand)); if (d && this._tracked(d)) st = this._define(d, this._step(e.operand, e.pos, e.operator === K.PlusPlusToken ? 1 : -1, st, f.ctx), st) }
        if (st && !this.pure && (e.operator === K.PlusPlusToken || e.operator === K.MinusMinusToken)) { const o = this.client.onAssign?.(e, st, f.ctx, this); if (o) st = o }
        return st
      }
      case K.CallExpression: return this.call(e, st, f, { gen })
      case K.NewExpression: return this.newExpr(e, st, f)
      case K.PropertyAccessExpression: {
        if (e.questionDotToken) {
          st = this.expr(e.expression, st, f)
          return st
        }
        return this.expr(e.expression, st, f)
      }
      case K.ElementAccessExpression: st = this.expr(e.expression, st, f); return this.expr(e.argumentExpression, st, f)
      case K.ObjectLiteralExpression:
        for (const p of e.properties) {
          if (p.name && ts.isComputedPropertyName(p.name)) st = this.expr(p.name.expression, st, f)
          if (ts.isPropertyAssignment(p)) st = this.expr(p.initializer, st, f)
          else if (ts.isSpreadAssignment(p)) st = this.expr(p.expression, st, f)
          else if (ts.isShorthandPropertyAssignment(p) && !this.pure) this.client.onExpr?.(p.name, st, f.ctx, this)
          if (!st) return null
        }
        return st
      case K.ArrayLiteralExpression: for (const x of e.elements) { st = this.expr(x, st, f); if (!st) return null } return st
      case K.SpreadElement: return this.expr(e.expression, st, f)
      case K.TemplateExpression: for (const sp of e.templateSpans) { st = this.expr(sp.expression, st, f); if (!st) return null } return st
      case K.TaggedTemplateExpression: return st
      case K.TypeOfExpression: case K.VoidExpression: case K.DeleteExpression: {
        st = this.expr(e.expression, st, f)
        if (e.kind === K.DeleteExpression && st && !this.pure) { const o = this.client.onAssign?.(e, st, f.ctx, this); if (o) st = o }
        return st
      }
      case K.YieldExpression: {
        if (e.expression) {
          const g = {}
          st = this.expr(e.expression, st, f, g)
          if (e.asteriskToken && g.y !== undefined) { f.yields = join(f.yields, g.y); return st }
        }
        if (st) {
          f.yields = join(f.yields, st)
          if (!this.pure) this.client.onYield?.(e, st, f.ctx, this)
        }
        return st
      }
      case K.ArrowFunction: case K.FunctionExpression: case K.ClassExpression: return st
      default: return st
    }
  }
  newExpr(e, st, f) {
    st = this.expr(e.expression, st, f)
    for (const a of e.arguments ?? []) st = this.expr(a, st, f)
    if (!st) return null
    const nm = strip(e.expression).getText()
    if (nm === 'Promise' && e.arguments?.[0]) {
      const ex = strip(e.arguments[0])
      if (isFnLike(ex)) {
        const o = this._fn(ex, st, mkCtx(ex, null, f.ctx, f.ctx), f.depth + 1)
        this._throwAt(o.throwSt, f)
        return join(o.normal, st) && { must: o.normal ? o.normal.must : st.must, may: join(o.normal, st).may }
      }
    }
    if (!this.pure) { const r = this.client.onCall?.(e, st, f.ctx, this); if (r) { if (r.throwSt) this._throwAt(r.throwSt, f); st = r.st; if (r.opaque) return st } }
    const ts_ = this.w.resolveCall(e, f.ctx)
    for (const t of ts_) if (this.canInline(t.fn, f) && this.isRelevant(t.fn)) {
      const o = this._fn(t.fn, st, mkCtx(t.fn, e, f.ctx), f.depth + 1)
      this._throwAt(o.throwSt, f)
      st = o.normal
    }
    this._throwAt(st && !this.pure && this.client.onRaise ? this.client.onRaise(e, st, f.ctx, this) : st, f)
    return st
  }
  canInline(fn, f) {
    if (f.depth >= this.maxDepth) return false
    if (this.client.mayInline && !this.client.mayInline(fn)) return false
    let c = f.ctx
    while (c) { if (c.fn === fn) return false; c = c.parent }
    return true
  }
  isAwaited(call) {
    let n = call, p = call.parent
    while (p) {
      if (ts.isAwaitExpression(p)) return true
      if (ts.isReturnStatement(p) || (ts.isArrowFunction(p) && p.body === n)) return true
      if (ts.isYieldExpression(p)) return true
      if (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p) || ts.isArrayLiteralExpression(p) || ts.isSpreadElement(p) || ts.isConditionalExpression(p) || ts.isBinaryExpression(p)) { n = p; p = p.parent; continue }
      if (ts.isPropertyAccessExpression(p) && ['then', 'catch', 'finally'].includes(p.name.text) && p.parent && ts.isCallExpression(p.parent) && p.parent.expression === p) { n = p.parent; p = n.parent; continue }
      if (ts.isCallExpression(p) && n !== p.expression) {
        const t = strip(p.expression)
        if (ts.isPropertyAccessExpression(t) && /^Promise$/.test(t.expression.getText()) && ['all', 'allSettled', 'race', 'any'].includes(t.name.text)) { n = p; p = p.parent; continue }
      }
      if (ts.isForOfStatement(p) && p.expression === n) return true
      return false
    }
    return false
  }
  returnsPromise(call) {
    const t = this.w.checker.getTypeAtLocation(call)
    const n = t.symbol?.name ?? ''
    return n === 'Promise' || n === 'PromiseLike'
  }
  call(e, st, f, o = {}) {
    const callee = strip(e.expression)
    const optional = !!e.questionDotToken || (ts.isPropertyAccessExpression(callee) && !!callee.questionDotToken)
    if (!o.replay && ts.isPropertyAccessExpression(callee) && callee.name.text === 'catch' && e.arguments.length === 1 && this._isPromise(callee.expression)) return this._catchCall(e, callee, st, f)
    if (!o.replay && ts.isPropertyAccessExpression(callee) && callee.name.text === 'then' && e.arguments.length === 2 && this._isPromise(callee.expression) && [...e.arguments].every(a => (ts.isArrowFunction(strip(a)) || ts.isFunctionExpression(strip(a))) && this.canInline(strip(a), f))) return this._thenCall(e, callee, st, f)
    if (!o.replay) {
      if (ts.isPropertyAccessExpression(callee) || ts.isElementAccessExpression(callee)) st = this.expr(callee.expression, st, f)
      else if (ts.isCallExpression(callee)) st = this.expr(callee, st, f)
      else if (ts.isFunctionExpression(callee) || ts.isArrowFunction(callee)) {
        // IIFE
        for (const a of e.arguments) st = this.expr(a, st, f)
        if (!st) return null
        const oo = this._fn(callee, st, mkCtx(callee, e, f.ctx, f.ctx), f.depth + 1)
        this._throwAt(oo.throwSt, f)
        if (isAsync(callee) && !this.isAwaited(e)) return { must: st.must, may: oo.normal ? join(st, oo.normal).may : st.may }
        return oo.normal
      }
      for (const a of e.arguments) { st = this.expr(a, st, f); if (!st) return null }
    }
    if (!st) return null
    const r0 = this._call(e, callee, st, f, o)
    if (optional) { const v = this.constEval(e.questionDotToken ? callee : callee.expression, f.ctx); if (v && v.vals.every(x => x !== undefined && x !== null)) return r0; if (v && v.vals.every(x => x === undefined || x === null)) return st }
    if (optional && r0) return join(st, r0)
    if (optional && !r0) return st
    return r0
  }
  _isPromise(e) { const t = this.w.checker.getNonNullableType(this.w.checker.getTypeAtLocation(e)); return t.symbol?.name === 'Promise' || t.symbol?.name === 'PromiseLike' }
  /** p.catch(h) or p.then(a, h) */
  _rescues(e) { const c = strip(e.expression); return ts.isPropertyAccessExpression(c) && (c.name.text === 'catch' && e.arguments.length === 1 || c.name.text === 'then' && e.arguments.length === 2) && this._isPromise(c.expression) }
  /** p.catch(h): like try { p } catch { h } */
  _catchCall(e, callee, st, f) {
    const saved = f.throwSt
    f.throwSt = null
    const r = this.expr(callee.expression, st, f)
    let thr = f.throwSt
    f.throwSt = saved
    if (!thr) return r
    const a = strip(e.arguments[0])
    let hs = ts.isArrowFunction(a) || ts.isFunctionExpression(a) ? [{ fn: a, ctx: f.ctx }] : this.w.resolveFnValue(a, f.ctx, { opaqueIface: this.opaqueIface, allCallers: false }, 0, new Set())
    if (!this.pure) { const c = this.client.onCatch?.(hs[0]?.fn ?? e, thr, f.ctx, this); if (c?.must) thr = c }
    if (!hs.length || !hs.every(h => this.canInline(h.fn, f))) { this._throwAt(thr, f); return join(r, thr) }
    let out = r
    for (const h of hs) {
      const x = this._fn(h.fn, thr, mkCtx(h.fn, null, f.ctx, h.ctx, e), f.depth + 1)
      this._throwAt(x.throwSt, f)
      out = join(out, x.normal)
    }
    return out
  }
  /** p.then(a, b): a after p, b after its failure */
  _thenCall(e, callee, st, f) {
    const saved = f.throwSt
    f.throwSt = null
    const r = this.expr(callee.expression, st, f)
    let thr = f.throwSt
    f.throwSt = saved
    const [a, b] = [...e.arguments].map(strip)
    let out = null
    if (r) { const x = this._fn(a, r, mkCtx(a, null, f.ctx, f.ctx, e), f.depth + 1); this._throwAt(x.throwSt, f); out = x.normal }
    if (thr) {
      if (!this.pure) { const c = this.client.onCatch?.(b, thr, f.ctx, this); if (c?.must) thr = c }
      const x = this._fn(b, thr, mkCtx(b, null, f.ctx, f.ctx, e), f.depth + 1)
      this._throwAt(x.throwSt, f)
      out = join(out, x.normal)
    }
    return out
  }
  _call(e, callee, st, f, o) {
    this.stats.calls++
    const pre = st
    this.curSt = st
    if (st && ts.isPropertyAccessExpression(callee) && /^(push|unshift|add|set)$/.test(callee.name.text) && ts.isIdentifier(strip(callee.expression))) {
      const d = this.w.declOf(strip(callee.expression))
      if (d && this._accum(d) && !e.arguments.some(ts.isSpreadElement)) st = addMust(st, `filled#${d.pos}`)
    }
    if (st && this.collectVals && !this.pure && ts.isPropertyAccessExpression(callee) && /^(push|unshift)$/.test(callee.name.text) && ts.isIdentifier(strip(callee.expression))) {
      const d = this.w.declOf(strip(callee.expression))
      if (d && this._grown(d)) {
        const b = this.constEval(callee.expression, f.ctx)
        const as = b && b.vals.length === 1 && Array.isArray(b.vals[0]) && b.vals[0].length < 12 ? e.arguments.map(a => ts.isSpreadElement(a) ? null : this._now(a, f.ctx)) : [null]
        st = this._define(d, as.every(a => a && a.vals.length === 1) ? `=${this._intern([callee.name.text === 'push' ? [...b.vals[0], ...as.map(a => a.vals[0])] : [...as.map(a => a.vals[0]), ...b.vals[0]]])}` : '?', st)
      }
    }
    if (st && this.collectVals && !this.pure && ts.isPropertyAccessExpression(callee) && /^(set|add|delete)$/.test(callee.name.text) && ts.isIdentifier(strip(callee.expression))) {
      const d = this.w.declOf(strip(callee.expression))
      if (d && this._grown(d) && this._keyed(d)) {
        const b = this.constEval(callee.expression, f.ctx), as = e.arguments.map(a => this._now(a, f.ctx))
        const base = b?.vals.length === 1 && (b.vals[0] instanceof Map || b.vals[0] instanceof Set) ? b.vals[0] : null
        let next = null
        if (base && as[0]?.vals.length === 1) {
          next = base instanceof Map ? new Map(base) : new Set(base)
          if (callee.name.text === 'set') next.set(as[0].vals[0], as[1]?.vals.length === 1 ? as[1].vals[0] : UNSURE); else next[callee.name.text](as[0].vals[0])
        }
        st = this._define(d, next ? `=${this._intern([next])}` : '?', st)
      }
    }
    let targets = this.w.resolveCall(e, f.ctx, { opaqueIface: this.opaqueIface })
    if (this.client.targets && targets.length > 1) targets = this.client.targets(targets, e, f.ctx)
    if (!this.pure) {
      const r = this.client.onCall?.(e, st, f.ctx, this, targets)
      if (r) {
        if (r.throwSt !== undefined) this._throwAt(r.throwSt, f)
        st = r.st
        if (r.opaque) { if (r.throwSt === undefined) this._throwAt(pre, f); return st }
        if (!st) return null
      }
    }
    const inl = targets.filter(t => this.canInline(t.fn, f) && (o.forCond ? (this.isRelevant(t.fn) || this._boolFn(t.fn)) : this.isRelevant(t.fn)))
    if (inl.length) {
      let out = null
      let yields
      const agg = o.agg
      for (const t of inl) {
        this.stats.inlined++
        const nctx = mkCtx(t.fn, e, f.ctx, t.ctx)
        const r = this._fn(t.fn, st, nctx, f.depth + 1)
        this._throwAt(r.throwSt, f)
        let n = r.normal
        if (!isGenerator(t.fn) && (isAsync(t.fn) || this._isPromise(e)) && !o.awaited && !this.isAwaited(e) && n) n = { must: st.must, may: join(st, n).may }
        if (isGenerator(t.fn)) { yields = join(yields ?? null, r.yields); }
        out = join(out, n)
        if (agg) { agg.t = join(agg.t, r.retT); agg.f = join(agg.f, r.retF) }
      }
      if (inl.length < targets.length) { out = join(out, st); if (agg) { agg.t = join(agg.t, st); agg.f = join(agg.f, st) } }
      if (o.gen && yields !== undefined) o.gen.y = yields
      return out
    }
    this.stats.opaque++
    // opaque: callbacks may run any number of times
    this._throwAt(!this.pure && this.client.onRaise ? this.client.onRaise(e, st, f.ctx, this) : st, f)
    for (const a0 of e.arguments) {
      const a = strip(a0)
      let lits = []
      if (ts.isArrowFunction(a) || ts.isFunctionExpression(a)) lits = [{ fn: a, ctx: f.ctx }]
      else if (ts.isIdentifier(a) || ts.isPropertyAccessExpression(a)) {
        const d = ts.isIdentifier(a) ? this.w.declOf(a) : null
        if (d && (isFnLike(d) || (ts.isVariableDeclaration(d) && d.initializer && isFnLike(strip(d.initializer))) || (ts.isParameter(d) && this.w.argFor(d, f.ctx)))) lits = this.w.resolveFnValue(a, f.ctx, { opaqueIface: this.opaqueIface, allCallers: false }, 0, new Set())
      }
      for (const l of lits) if (this.canInline(l.fn, f)) {
        let s = st
        const m = ts.isPropertyAccessExpression(callee) && /^(forEach|map|flatMap|every|some|filter)$/.test(callee.name.text) ? callee : null
        if (m && this.collectVals && !this.pure && m.name.text !== 'some' && m.name.text !== 'every' && (!isAsync(l.fn) || this.isAwaited(e))) {
          const v = this.constEval(m.expression, f.ctx) ?? this._arrayOf(m.expression, f.ctx, 0)
          if (v?.vals.length === 1 && Array.isArray(v.vals[0]) && v.vals[0].length <= 8) {
            for (const [i, x] of v.vals[0].entries()) {
              if (!st) return null
              const c = { fn: l.fn, call: null, parent: f.ctx, defCtx: l.ctx, cbOf: e, depth: (f.ctx?.depth ?? 0) + 1, bind: new Map() }; l.fn.parameters.forEach((p, j) => { if (ts.isIdentifier(p.name)) { if (j < 2) c.bind.set(p, j ? i : x) } else if (j === 0 && ts.isObjectBindingPattern(p.name) && x && typeof x === 'object') for (const b of p.name.elements) c.bind.set(b, x[(b.propertyName ?? b.name).getText()]) })
              const r = this._fn(l.fn, st, c, f.depth + 1)
              this._throwAt(r.throwSt, f)
              st = r.normal
            }
            if (!st) return null
            continue
          }
        }
        const once = m && (!isAsync(l.fn) || this.isAwaited(e)) && this._nonEmpty(m.expression, f.ctx)
        for (let i = 0; i < 4; i++) {
          const r = this._fn(l.fn, s, mkCtx(l.fn, null, f.ctx, l.ctx, e), f.depth + 1)
          this._throwAt(r.throwSt, f)
          if (once && i === 0) { if (!r.normal) return null; s = st = r.normal; continue }
          const n = join(s, r.normal)
          if (eqState(n, s)) break
          s = n
        }
        st = join(st, s)
      }
    }
    return st
  }
  _boolFn(fn) {
    if (fn._bool !== undefined) return fn._bool
    const sig = this.w.checker.getSignatureFromDeclaration(fn)
    let t = sig && this.w.checker.getReturnTypeOfSignature(sig)
    if (t?.symbol?.name === 'Promise') t = this.w.checker.getTypeArguments(t)[0] ?? t
    const s = t ? this.w.checker.typeToString(t) : ''
    return (fn._bool = s === 'boolean' || / is /.test(s) || s === 'true' || s === 'false')
  }
  // ── conditions ────────────────────────────────────────────────────────
  cond(e, st, f) {
    if (!st) return { t: null, f: null }
    this.curSt = st
    const s0 = e
    e = strip(e)
    if (!this.pure && e !== s0) this.client.onExpr?.(s0, st, f.ctx, this)
    if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken) {
      const c = this.cond(e.operand, st, f)
      return { t: c.f, f: c.t }
    }
    if (ts.isBinaryExpression(e)) {
      const op = e.operatorToken.kind
      if (op === K.AmpersandAmpersandToken) {
        if (!this.pure) this.client.onExpr?.(e, st, f.ctx, this)
        const a = this.cond(e.left, st, f); const b = a.t ? this.cond(e.right, a.t, f) : { t: null, f: null }
        return { t: b.t, f: join(a.f, b.f) }
      }
      if (op === K.BarBarToken) {
        if (!this.pure) this.client.onExpr?.(e, st, f.ctx, this)
        const a = this.cond(e.left, st, f); const b = a.f ? this.cond(e.right, a.f, f) : { t: null, f: null }
        return { t: join(a.t, b.t), f: b.f }
      }
      if (op === K.EqualsEqualsEqualsToken || op === K.ExclamationEqualsEqualsToken || op === K.EqualsEqualsToken || op === K.ExclamationEqualsToken) {
        const neg = op === K.ExclamationEqualsEqualsToken || op === K.ExclamationEqualsToken
        const r = strip(e.right), l = strip(e.left)
        for (const [x, y] of [[l, r], [r, l]]) {
          if ((y.kind === K.TrueKeyword || y.kind === K.FalseKeyword) && this._isBool(x)) {
            const c = this.cond(x, st, f)
            const same = (y.kind === K.TrueKeyword) !== neg
            return same ? c : { t: c.f, f: c.t }
          }
        }
      }
    }
    if (ts.isConditionalExpression(e)) {
      const c = this.cond(e.condition, st, f)
      const a = c.t ? this.cond(e.whenTrue, c.t, f) : { t: null, f: null }
      const b = c.f ? this.cond(e.whenFalse, c.f, f) : { t: null, f: null }
      return { t: join(a.t, b.t), f: join(a.f, b.f) }
    }
    this.stats.conds++
    if (e.kind === K.TrueKeyword) return { t: st, f: null }
    if (e.kind === K.FalseKeyword) return { t: null, f: st }
    // evaluate for effects
    let T, F
    const call = ts.isAwaitExpression(e) ? strip(e.expression) : e
    if (ts.isCallExpression(call) && this._isBoolCall(call) && !this._rescues(call)) {
      if (!this.pure) this.client.onExpr?.(e, st, f.ctx, this)
      const agg = { t: null, f: null }
      const callee = strip(call.expression)
      let s = st
      if (ts.isPropertyAccessExpression(callee)) s = this.expr(callee.expression, s, f)
      for (const a of call.arguments) s = this.expr(a, s, f)
      const out = s ? this._call(call, callee, s, f, { forCond: true, agg, awaited: ts.isAwaitExpression(e) }) : null
      if (!out) return { t: null, f: null }
      if (agg.t || agg.f) { T = agg.t; F = agg.f } else { T = out; F = out }
      if (ts.isAwaitExpression(e)) { T = this._await(e, T, f); F = this._await(e, F, f) }
      // facts from the must part only survive when awaited/sync, handled in _call
    } else {
      const s = this.expr(e, st, f)
      T = s; F = s
    }
    if (!T && !F) return { t: null, f: null }
    // boolean held in a constant: replay its initialiser as a condition
    if (ts.isIdentifier(e)) {
      const d = this.w.declOf(e)
      if (d && ts.isVariableDeclaration(d) && d.initializer && (d.parent.flags & ts.NodeFlags.Const) && !f.replaying?.has(d)) {
        const rep = new Set(f.replaying ?? []); rep.add(d)
        const g = { ...f, replaying: rep, throwSt: null }
        this.pureAtoms = (this.pureAtoms ?? 0) + 1
        const savedOn = this.client
        this.client = this._atomOnly(savedOn)
        let c
        try { c = this.cond(d.initializer, T, g) } finally { this.client = savedOn; this.pureAtoms-- }
        T = c.t; F = c.f
      } else if (d && ts.isParameter(d)) {
        const a = this.w.argFor(d, f.ctx)
        if (a && a.expr && !(f.replaying?.has(d))) {
          const rep = new Set(f.replaying ?? []); rep.add(d)
          const g = { ...f, ctx: a.ctx ?? mkCtx(null), replaying: rep, throwSt: null }
          const savedOn = this.client
          this.client = this._atomOnly(savedOn)
          let c
          try { c = this.cond(a.expr, T, g) } finally { this.client = savedOn }
          T = c.t; F = c.f
        }
      }
    }
    this.curSt = T && F ? join(T, F) : T ?? F
    const fl = this._filled(e)
    if (fl) {
      const k = `filled#${fl.d.pos}`
      if (T && (fl.pol ? !T.may.has(k) : T.must.has(k))) T = null
      if (F && (fl.pol ? F.must.has(k) : !F.may.has(k))) F = null
    }
    const v = fl ? UNKNOWN : this.constEval(e, f.ctx)
    if (v) {
      if (!v.vals.some(x => !!x)) T = null
      if (!v.vals.some(x => !x)) F = null
    }
    if (this.client.onAtom) {
      if (T) T = this.client.onAtom(e, true, T, f.ctx, this)
      if (F) F = this.client.onAtom(e, false, F, f.ctx, this)
    }
    return { t: T, f: F }
  }
  /** A local variable or parameter whose every assignment is in its own function: its reaching definitions are kept as facts. */
  _tracked(d) {
    return this._reassigned(d) || (!!this.client.closures && this._captured(d)) || (!!this.collectVals && this._grown(d))
  }
  /** A local list changed only by push calls of its own function. */
  _grown(d) {
    if (d._grown !== undefined) return d._grown
    d._grown = false
    if (!ts.isVariableDeclaration(d) || !ts.isIdentifier(d.name) || ts.isForOfStatement(d.parent.parent)) return false
    const fn = enclosingFn(d), s = this.w.sym(d.name)
    if (!fn || !s) return false
    if (!this.w.assignmentsOf(s).every(a => a.node && enclosingFn(a.node) === fn)) return false
    const ms = this.w.mutationsOf(s)
    if (this._keyed(d)) return (d._grown = this._onlyRead(d, fn))
    return (d._grown = ms.length > 0 && ms.every(m => m.call && ts.isCallExpression(m.call) && ts.isPropertyAccessExpression(strip(m.call.expression)) && /^(push|unshift)$/.test(strip(m.call.expression).name.text) && ts.isIdentifier(strip(strip(m.call.expression).expression)) && enclosingFn(m.call) === fn))
  }
  /** Declared without a value, then assigned in the same block (or a try whose handler leaves it) before the use. */
  _surelySet(d, use, asg) {
    const home = d.parent?.parent?.parent
    if (!home || !ts.isBlock(home)) return false
    return asg.some(a => {
      const st = a.node.parent
      if (!ts.isExpressionStatement(st) || a.node.operatorToken?.kind !== K.EqualsToken || a.node.end > use.pos) return false
      if (st.parent === home) return true
      const t = st.parent.parent
      if (!ts.isTryStatement(t) || t.tryBlock !== st.parent || t.parent !== home || t.end > use.pos) return false
      const last = t.catchClause?.block.statements.at(-1)
      return !t.catchClause || (!!last && (ts.isThrowStatement(last) || ts.isReturnStatement(last)))
    })
  }
  /** Starts as an empty Map or Set. */
  _keyed(d) { const i = d.initializer && strip(d.initializer); return i && ts.isNewExpression(i) && !i.arguments?.length && /^(Map|Set)$/.test(i.expression.getText()) ? i.expression.getText() : null }
  /** Every use is a read or an addition in the function of the declaration. */
  _onlyRead(d, fn) {
    const s = this.w.sym(d.name)
    let ok = true
    walkNodes(fn.body ?? fn, n => {
      if (!ok || !ts.isIdentifier(n) || n === d.name || this.w.sym(n) !== s) return
      const p = n.parent
      if (ts.isPropertyAccessExpression(p) && p.expression === n && /^(has|get|set|add|delete|size|values|keys|entries)$/.test(p.name.text)) { if (/^(set|add|delete)$/.test(p.name.text) && enclosingFn(p) !== fn) ok = false; return }
      if ((ts.isForOfStatement(p) && p.expression === n) || ts.isSpreadElement(p)) return
      ok = false
    })
    return ok
  }
  /** An object literal as a plain value, when every field is known now. */
  _now(e, ctx) {
    const x = strip(e)
    const v = this.constEval(e, ctx)
    if (v && !(v.vals.length === 1 && v.vals[0] instanceof AbsObj)) return v
    const lit = v ? v.vals[0].lit : ts.isObjectLiteralExpression(x) ? x : null
    if (!lit) return v
    const o = {}
    for (const p of lit.properties) {
      const pv = ts.isPropertyAssignment(p) ? this._now(p.initializer, v ? v.vals[0].ctx : ctx) : ts.isShorthandPropertyAssignment(p) ? this.constEval(p.name, v ? v.vals[0].ctx : ctx) : null
      if (!pv || pv.vals.length !== 1) return { vals: [v ? v.vals[0] : new AbsObj(lit, ctx)] }
      o[p.name.text ?? p.name.getText()] = pv.vals[0]
    }
    return { vals: [o] }
  }
  _reassigned(d) {
    if (d._tracked !== undefined) return d._tracked
    d._tracked = false
    if (!(ts.isVariableDeclaration(d) || ts.isParameter(d)) || !ts.isIdentifier(d.name)) return false
    const fn = enclosingFn(d)
    const s = this.w.sym(d.name)
    if (!fn || !s || (ts.isParameter(d) && d.parent !== fn)) return false
    const asg = this.w.assignmentsOf(s)
    return (d._tracked = asg.length > 0 && asg.every(a => a.node && enclosingFn(a.node) === fn))
  }
  /** Also assigned in callbacks the function hands to functions of the repository (client.closures). */
  _captured(d) {
    if (d._capt !== undefined) return d._capt
    d._capt = false
    if (!ts.isVariableDeclaration(d) || !ts.isIdentifier(d.name)) return false
    const fn = enclosingFn(d), s = this.w.sym(d.name)
    if (!fn || !s) return false
    const asg = this.w.assignmentsOf(s)
    const handed = g => ts.isCallExpression(g.parent) && g.parent.arguments.includes(g) && enclosingFn(g.parent) === fn && this.w.resolveCall(g.parent).some(t => t.fn.body)
    return (d._capt = asg.length > 0 && asg.every(a => { const g = a.node && enclosingFn(a.node); return g && (g === fn || handed(g)) }))
  }
  /** Member `name` contributed by spreading `e` into an object literal; undefined: none. */
  _spread(e, name, ctx, depth) {
    e = strip(e)
    if (depth > (this.collectVals ? 40 : 24)) return null
    if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.AmpersandAmpersandToken) {
      const r = this._spread(e.right, name, ctx, depth + 1)
      if (r && r.vals.length === 1 && r.vals[0] === undefined) return r
      const c = this.constEval(e.left, ctx, depth + 1)
      if (!c) return null
      return c.vals.every(v => v) ? r : c.vals.every(v => !v) ? { vals: [undefined] } : null
    }
    if (ts.isConditionalExpression(e)) {
      const a = this._spread(e.whenTrue, name, ctx, depth + 1), b = this._spread(e.whenFalse, name, ctx, depth + 1)
      if (a && b && a.vals.length === 1 && b.vals.length === 1 && a.vals[0] === b.vals[0]) return a
      const c = this.constEval(e.condition, ctx, depth + 1)
      return !c ? null : c.vals.every(v => v) ? a : c.vals.every(v => !v) ? b : null
    }
    if (ts.isObjectLiteralExpression(e)) return new AbsObj(e, ctx).get(name, this, depth + 1)
    const v = this.constEval(e, ctx, depth + 1)
    if (!v || v.vals.length !== 1) return null
    const o = v.vals[0]
    if (o instanceof AbsObj) return o.get(name, this, depth + 1)
    if (o === null || o === undefined) return { vals: [undefined] }
    if (typeof o === 'object' && Object.getPrototypeOf(o) === Object.prototype) return { vals: [o[name]] }
    return null
  }
  /** Definition point of an assignment; while values are collected, the value it assigns. */
  _at(d, at, value, st, ctx) {
    if (!this.collectVals || !value || !ctx) return at
    this.curSt = st
    const v = this.constEval(value, ctx)
    if (!v || !v.vals.length || v.vals.length > 4) return at
    const p = `def#${(d._did ??= ++defs)}#=`
    let n = 0
    for (const k of st.may) if (k.startsWith(p)) n++
    if (n > 4) return at
    return (this._known?.length ?? 0) > 400 ? at : `=${this._intern(v.vals)}`
  }
  /** A known number after an increment; otherwise its definition point. */
  _step(x, at, by, st, ctx, op) {
    if (!this.collectVals || (this._known?.length ?? 0) > 400) return at
    this.curSt = st
    const v = this.constEval(x, ctx), n = typeof by === 'number' ? { vals: [by] } : this.constEval(by, ctx)
    if (v?.vals.length !== 1 || n?.vals.length !== 1 || typeof v.vals[0] !== 'number' || typeof n.vals[0] !== 'number') return at
    return `=${this._intern([op === K.MinusEqualsToken ? v.vals[0] - n.vals[0] : v.vals[0] + n.vals[0]])}`
  }
  /** Member of `this` last assigned on this path; other paths keep what it held before. */
  _setMember(l, value, st, ctx) {
    const d = this.w.sym(l.name)?.valueDeclaration
    if (!d) return st
    this.curSt = st
    const x = stripAwait(value)
    const v = ts.isObjectLiteralExpression(x) ? { vals: [new AbsObj(x, ctx)] } : this.constEval(value, ctx)
    const at = v?.vals.length === 1 ? `=${this._intern(v.vals)}` : '?'
    const r = this._define(d, at, st)
    return r
  }
  /** Object literal an expression stands for. */
  _literal(e, ctx) {
    const r = this.deref(e, ctx)
    return r && !r.path.length && ts.isObjectLiteralExpression(r.expr) ? { vals: [new AbsObj(r.expr, r.ctx)] } : UNKNOWN
  }
  _member(e) {
    const d = this.w.sym(e.name)?.valueDeclaration
    if (!d?._did) return undefined
    const p = `def#${d._did}#`
    const ks = [...this.curSt.must].filter(k => k.startsWith(p))
    if (ks.length !== 1 || ks[0].slice(p.length)[0] !== '=') return undefined
    return { vals: this._known[+ks[0].slice(p.length + 1)] }
  }
  _intern(vals) {
    this._known ??= []
    const i = this._known.findIndex(k => k.length === vals.length && k.every((x, j) => Object.is(x, vals[j]) || (Array.isArray(x) && Array.isArray(vals[j]) && x.length === vals[j].length && x.every((y, z) => Object.is(y, vals[j][z]))) || (x instanceof AbsObj && vals[j] instanceof AbsObj && x.lit === vals[j].lit && x.ctx === vals[j].ctx)))
    return i >= 0 ? i : this._known.push(vals) - 1
  }
  _define(d, at, st) {
    const p = `def#${(d._did ??= ++defs)}#`
    const must = new Set(), may = new Set()
    for (const k of st.must) if (!k.startsWith(p)) must.add(k)
    for (const k of st.may) if (!k.startsWith(p)) may.add(k)
    must.add(p + at); may.add(p + at)
    return { must, may }
  }
  _reaching(d, ctx) {
    const cur = this.pure ? (this.client.closures ? this._outer : null) : this.curSt
    if (!cur || !d._did || !this._tracked(d)) return null
    const fn = enclosingFn(d)
    let c = ctx
    while (c && c.fn !== fn) c = c.defCtx ?? c.parent
    if (!c?.live) return null
    const p = `def#${d._did}#`
    const out = new Set()
    for (const k of cur.may) if (k.startsWith(p)) out.add(k.slice(p.length))
    return out.size ? out : null
  }
  /** A local list, set or map that starts empty and is only ever added to. */
  _accum(d) {
    if (!ts.isVariableDeclaration(d) || !d.initializer || !ts.isIdentifier(d.name) || !(d.parent.flags & ts.NodeFlags.Const)) return false
    if (d._accum !== undefined) return d._accum
    d._accum = false
    const i = strip(d.initializer)
    const empty = (ts.isArrayLiteralExpression(i) && !i.elements.length) || (ts.isNewExpression(i) && /^(Set|Map|Array)$/.test(i.expression.getText()) && !i.arguments?.length)
    if (!empty) return false
    let scope = d; while (scope && !isFnLike(scope) && !ts.isSourceFile(scope)) scope = scope.parent
    let ok = !ts.isSourceFile(scope)
    walkNodes(scope, n => {
      if (!ts.isIdentifier(n) || n === d.name || n.text !== d.name.text || this.w.declOf(n) !== d) return
      const p = n.parent
      if (ts.isPropertyAccessExpression(p) && p.expression === n) { if (/^(pop|shift|splice|delete|clear|fill|copyWithin)$/.test(p.name.text) || (p.name.text === 'length' && ts.isBinaryExpression(p.parent) && p.parent.left === p && p.parent.operatorToken.kind === K.EqualsToken)) ok = false; let g = n; while (g && g !== scope && !isFnLike(g)) g = g.parent; if (g !== scope) ok = false; return }
      if (ts.isReturnStatement(p) || ts.isNewExpression(p) || ts.isTemplateSpan(p) || ts.isSpreadElement(p) || ts.isShorthandPropertyAssignment(p) || ts.isPropertyAssignment(p) || (ts.isForOfStatement(p) && p.expression === n) || (ts.isElementAccessExpression(p) && p.expression === n && !(ts.isBinaryExpression(p.parent) && p.parent.left === p))) return
      ok = false
    })
    return (d._accum = ok)
  }
  /** Emptiness test of such a list: {d, pol} with pol true when the test holds for a non-empty one. */
  _filled(e) {
    const size = x => { x = strip(x); if (!ts.isPropertyAccessExpression(x) || (x.name.text !== 'length' && x.name.text !== 'size') || !ts.isIdentifier(strip(x.expression))) return null; const d = this.w.declOf(strip(x.expression)); return d && this._accum(d) ? d : null }
    const d0 = size(e)
    if (d0) return { d: d0, pol: true }
    if (!ts.isBinaryExpression(e)) return null
    const num = x => { x = strip(x); return ts.isNumericLiteral(x) ? Number(x.text) : null }
    let d = size(e.left), n = num(e.right), op = e.operatorToken.getText()
    if (!d) { d = size(e.right); n = num(e.left); op = { '<': '>', '>': '<', '<=': '>=', '>=': '<=' }[op] ?? op }
    if (!d) return null
    if ((n === 0 && /^(>|!==|!=)$/.test(op)) || (n === 1 && op === '>=')) return { d, pol: true }
    if ((n === 0 && /^(===|==|<=)$/.test(op)) || (n === 1 && op === '<')) return { d, pol: false }
    return null
  }
  _atomOnly(c) {
    return { isEvent: c.isEvent?.bind(c), mayInline: c.mayInline?.bind(c), onAtom: c.onAtom?.bind(c), onEq: c.onEq?.bind(c), assume: c.assume?.bind(c), targets: c.targets?.bind(c), nonEmpty: c.nonEmpty?.bind(c), assumeProp: c.assumeProp?.bind(c), assumeIn: c.assumeIn?.bind(c), atomsOnly: true }
  }
  _isBool(e) {
    const t = this.w.checker.getTypeAtLocation(e)
    return !!(t.flags & ts.TypeFlags.BooleanLike) || this.w.checker.typeToString(t) === 'boolean'
  }
  _isBoolCall(call) {
    return true
  }
  // ── constant propagation ──────────────────────────────────────────────
  /** Possible constant values of an expression, or null when unknown. */
  constEval(e, ctx, depth = 0) {
    e = strip(e)
    if (!e || depth > (this.collectVals ? 40 : 24)) { this._cut = true; return UNKNOWN }
    const as0 = this.trackMembers && this.curSt && this._known && ts.isPropertyAccessExpression(e) && e.expression.kind === K.ThisKeyword ? this._member(e) : undefined
    if (as0) return as0
    const as = this.client.assume?.(e, ctx, this)
    if (as) return as
    switch (e.kind) {
      case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return { vals: [e.text] }
      case K.RegularExpressionLiteral: { const m = /^\/(.*)\/([a-z]*)$/s.exec(e.text); try { return { vals: [new RegExp(m[1], m[2])] } } catch { return UNKNOWN } }
      case K.NumericLiteral: return { vals: [Number(e.text.replace(/_/g, ''))] }
      case K.TrueKeyword: return { vals: [true] }
      case K.FalseKeyword: return { vals: [false] }
      case K.NullKeyword: return { vals: [null] }
      case K.VoidExpression: return { vals: [undefined] }
      case K.AwaitExpression: return this.constEval(e.expression, ctx, depth + 1)
      case K.PrefixUnaryExpression: {
        const v = this.constEval(e.operand, ctx, depth + 1)
        if (!v) return UNKNOWN
        if (e.operator === K.ExclamationToken) return { vals: uniq(v.vals.map(x => !x)) }
        if (e.operator === K.MinusToken) return { vals: v.vals.map(x => -x) }
        if (e.operator === K.PlusToken && v.vals.every(x => typeof x === 'number' || typeof x === 'string')) return { vals: v.vals.map(x => +x) }
        return UNKNOWN
      }
      case K.ConditionalExpression: {
        const c = this.constEval(e.condition, ctx, depth + 1)
        const out = []
        const branch = x => { x = strip(x); return ts.isObjectLiteralExpression(x) ? this.constEval(x, ctx, depth + 1) ?? { vals: [new AbsObj(x, ctx)] } : this.constEval(x, ctx, depth + 1) }
        if (!c || c.vals.some(x => x)) { const a = branch(e.whenTrue); if (!a) return UNKNOWN; out.push(...a.vals) }
        if (!c || c.vals.some(x => !x)) { const a = branch(e.whenFalse); if (!a) return UNKNOWN; out.push(...a.vals) }
        return { vals: uniq(out) }
      }
      case K.BinaryExpression: return this._constBin(e, ctx, depth)
      case K.TemplateExpression: {
        let acc = [e.head.text]
        for (const sp of e.templateSpans) {
          const v = this.constEval(sp.expression, ctx, depth + 1)
          if (!v) return UNKNOWN
          acc = acc.flatMap(a => v.vals.map(x => a + String(x) + sp.literal.text))
          if (acc.length > 16) return UNKNOWN
        }
        return { vals: uniq(acc) }
      }
      case K.Identifier: {
        if (e.text === 'undefined') return { vals: [undefined] }
        const s = this.w.sym(e)
        const d = s?.valueDeclaration
        if (!d) return UNKNOWN
        const key = d
        if (this._constBusy.has(key)) { this._cut = true; return UNKNOWN }
        this._constBusy.add(key)
        try {
          if (ts.isVariableDeclaration(d) && ts.isIdentifier(d.name)) {
            for (let c = ctx; c; c = c.parent) if (c.bind?.has(d)) return { vals: [c.bind.get(d)] }
            if (ts.isForOfStatement(d.parent.parent) || ts.isForInStatement(d.parent.parent)) return UNKNOWN
            const asg = this.w.assignmentsOf(s)
            if (!d.initializer && !asg.length) return UNKNOWN
            const out = []
            const reach = this._reaching(d, ctx)
            if (reach?.has('?')) return UNKNOWN
            if (reach && !reach.has('init')) { /* overwritten */ }
            else if (reach && this._keyed(d) && this._grown(d)) out.push(this._keyed(d) === 'Map' ? new Map() : new Set())
            else if (reach && d.initializer && this._grown(d) && ts.isArrayLiteralExpression(strip(d.initializer)) && !strip(d.initializer).elements.length) out.push([])
            else if (d.initializer) { const v = this.constEval(d.initializer, ctx, depth + 1) ?? (this.collectVals && !asg.length ? this._literal(e, ctx) : UNKNOWN); if (!v) return UNKNOWN; out.push(...v.vals) }
            else if (reach || !this._surelySet(d, e, asg)) out.push(undefined)
            for (const k of reach ?? []) if (k[0] === '=') out.push(...this._known[+k.slice(1)])
            for (const a of asg) {
              if (reach && !reach.has(String(a.node.pos))) continue
              if (!ts.isBinaryExpression(a.node) || a.node.operatorToken.kind !== K.EqualsToken) return UNKNOWN
              const lit = stripAwait(a.value)
              const v = this.constEval(a.value, ctx, depth + 1) ?? (ts.isObjectLiteralExpression(lit) ? { vals: [new AbsObj(lit, ctx)] } : UNKNOWN); if (!v) return UNKNOWN; out.push(...v.vals)
            }
            if (out.some(Array.isArray) && this.w.mutationsOf(s).length && !(reach && this._grown(d))) return UNKNOWN
            return { vals: uniq(out) }
          }
          if (ts.isParameter(d)) {
            for (let c = ctx; c; c = c.parent) if (c.bind?.has(d)) return { vals: [c.bind.get(d)] }
            if (d.dotDotDotToken) {
              let c = ctx
              while (c && c.fn !== d.parent) c = c.defCtx ?? c.parent
              if (!c?.call) return UNKNOWN
              const vs = [...c.call.arguments].slice(d.parent.parameters.indexOf(d)).map(x => ts.isSpreadElement(x) ? UNKNOWN : this.constEval(x, c.parent, depth + 1))
              return vs.every(v => v && v.vals.length === 1) ? { vals: [vs.map(v => v.vals[0])] } : UNKNOWN
            }
            const reach = ts.isIdentifier(d.name) ? this._reaching(d, ctx) : null
            if (reach && [...reach].some(k => k !== 'init')) {
              const out = []
              for (const k of reach) if (k[0] === '=') out.push(...this._known[+k.slice(1)])
              for (const x of this.w.assignmentsOf(s)) {
                if (!reach.has(String(x.node.pos))) continue
                if (!ts.isBinaryExpression(x.node) || x.node.operatorToken.kind !== K.EqualsToken) return UNKNOWN
                const v = this.constEval(x.value, ctx, depth + 1); if (!v) return UNKNOWN; out.push(...v.vals)
              }
              if (!reach.has('init')) return { vals: uniq(out) }
              const a0 = this.w.argFor(d, ctx)
              const v0 = a0 && !a0.missing && !d.initializer ? this.constEval(a0.expr, a0.ctx, depth + 1) : UNKNOWN
              return v0 ? { vals: uniq([...out, ...v0.vals]) } : UNKNOWN
            }
            const a = this.w.argFor(d, ctx)
            if (!a) return UNKNOWN
            if (a.missing) return { vals: [undefined] }
            if (d.initializer) {
              const v = this.constEval(a.expr, a.ctx, depth + 1)
              if (v && v.vals.includes(undefined)) return UNKNOWN
              return v
            }
            return this.constEval(a.expr, a.ctx, depth + 1)
          }
          if (ts.isBindingElement(d)) return this._constBinding(d, ctx, depth)
          if (ts.isEnumMember(d)) return UNKNOWN
        } finally { this._constBusy.delete(key) }
        return UNKNOWN
      }
      case K.PropertyAccessExpression: return this._constProp(e, ctx, depth)
      case K.ElementAccessExpression: return this._constElem(e, ctx, depth)
      case K.ArrayLiteralExpression: {
        if (!e.elements.length && !(e.parent && ts.isBinaryExpression(e.parent))) return UNKNOWN // usually filled later
        if (e.elements.some(x => ts.isOmittedExpression(x))) return UNKNOWN
        const vs = e.elements.map(x => this.constEval(ts.isSpreadElement(x) ? x.expression : x, ctx, depth + 1))
        return vs.every((v, i) => v && v.vals.length === 1 && (!ts.isSpreadElement(e.elements[i]) || Array.isArray(v.vals[0]))) ? { vals: [vs.flatMap((v, i) => ts.isSpreadElement(e.elements[i]) ? v.vals[0] : [v.vals[0]])] } : UNKNOWN
      }
      case K.CallExpression: return this._constCall(e, ctx, depth)
      case K.NewExpression: {
        const a = e.expression.getText() === 'Uint8Array' && e.arguments?.length === 1 ? this.constEval(e.arguments[0], ctx, depth + 1) ?? this._arrayOf(e.arguments[0], ctx, depth + 1) : null
        return a && a.vals.every(x => Array.isArray(x) && x.every(y => typeof y === 'number')) ? { vals: a.vals.map(x => [...x]) } : UNKNOWN
      }
      case K.TypeOfExpression: {
        const v = this.constEval(e.expression, ctx, depth + 1)
        return v ? { vals: uniq(v.vals.map(x => typeof x)) } : UNKNOWN
      }
    }
    return UNKNOWN
  }
  _constBinding(d, ctx, depth) {
    const pat = d.parent
    for (let c = ctx; c; c = c.parent) if (c.bind?.has(d)) return { vals: [c.bind.get(d)] }
    const vd = pat.parent
    if (!ts.isObjectBindingPattern(pat)) {
      if (d.dotDotDotToken || d.initializer || !ts.isVariableDeclaration(vd) || !vd.initializer) return UNKNOWN
      const v = this.constEval(vd.initializer, ctx, depth + 1)
      return v && v.vals.every(Array.isArray) ? { vals: uniq(v.vals.map(x => x[pat.elements.indexOf(d)])) } : UNKNOWN
    }
    const src = ts.isVariableDeclaration(vd) ? vd.initializer : ts.isParameter(vd) ? this.w.argFor(vd, ctx)?.expr : null
    if (!src) return UNKNOWN
    const nm = (d.propertyName ?? d.name).text
    const as = this.client.assumeProp?.(src, nm, ctx, this)
    if (as) return as
    const pv = this._propOf(src, nm, ts.isParameter(vd) ? this.w.argFor(vd, ctx).ctx : ctx, depth)
    return pv
  }
  _constBin(e, ctx, depth) {
    const op = e.operatorToken.kind
    const L = this.constEval(e.left, ctx, depth + 1)
    if (op === K.AmpersandAmpersandToken || op === K.BarBarToken) {
      const and = op === K.AmpersandAmpersandToken
      if (L) {
        const stop = L.vals.filter(x => (and ? !x : !!x))
        const go = L.vals.some(x => (and ? !!x : !x))
        if (!go) return { vals: stop }
        const R = this.constEval(e.right, ctx, depth + 1)
        return R ? { vals: uniq([...stop, ...R.vals]) } : UNKNOWN
      }
      const R = this.constEval(e.right, ctx, depth + 1)
      if (R && this._isBool(e.left)) {
        // unknown && false = false ; unknown || true = true
        if (and && R.vals.every(x => !x)) return { vals: [false] }
        if (!and && R.vals.every(x => !!x)) return { vals: [true] }
      }
      return UNKNOWN
    }
    if (op === K.QuestionQuestionToken) {
      if (!L) return UNKNOWN
      const keep = L.vals.filter(x => x !== null && x !== undefined)
      if (keep.length === L.vals.length) return L
      const R = this.constEval(e.right, ctx, depth + 1)
      return R ? { vals: uniq([...keep, ...R.vals]) } : UNKNOWN
    }
    if (op === K.InKeyword) {
      const c = this.client.assumeIn?.(e, ctx, this)
      if (c) return c
      const R = this.constEval(e.right, ctx, depth + 1)
      if (R && R.vals.every(o => isPlain(o) && !Object.keys(o).length)) return { vals: [false] }
      if (L && R && R.vals.every(isPlain)) return { vals: uniq(R.vals.flatMap(o => L.vals.map(k => Object.prototype.hasOwnProperty.call(o, k)))) }
      return UNKNOWN
    }
    if (!L) return UNKNOWN
    const R = this.constEval(e.right, ctx, depth + 1)
    if (!R) return UNKNOWN
    const fn = BIN[op]
    if (!fn) return UNKNOWN
    const out = []
    for (const a of L.vals) for (const b of R.vals) { if (a instanceof AbsObj && b instanceof AbsObj) return UNKNOWN; const v = fn(a, b); if (v === SKIP) return UNKNOWN; out.push(v) }
    return out.length > 64 ? UNKNOWN : { vals: uniq(out) }
  }
  _constProp(e, ctx, depth) {
    if (e.name.text === 'length') {
      const v = this.constEval(e.expression, ctx, depth + 1)
      if (v && v.vals.every(x => typeof x === 'string' || Array.isArray(x))) return { vals: uniq(v.vals.map(x => x.length)) }
    }
    if (e.questionDotToken || (e.flags & ts.NodeFlags.OptionalChain)) {
      const b = this.constEval(e.expression, ctx, depth + 1)
      if (b && b.vals.every(x => x === undefined || x === null)) return { vals: [undefined] }
    }
    return this._propOf(e.expression, e.name.text, ctx, depth, e)
  }
  _propOf(objExpr, name, ctx, depth, access) {
    const o = this.constEval(objExpr, ctx, depth + 1)
    if (o && o.vals.length && o.vals.every(x => x && typeof x === 'object' && !(x instanceof Opaque))) {
      const out = []
      for (const x of o.vals) { if (x instanceof AbsObj) { const v = x.get(name, this, depth + 1); if (!v) return UNKNOWN; out.push(...v.vals) } else if (Object.prototype.hasOwnProperty.call(x, name)) out.push(x[name]); else if (Object.getPrototypeOf(x) === Object.prototype) out.push(undefined); else return UNKNOWN }
      return { vals: uniq(out) }
    }
    // object literal reachable through aliases
    const r = this.deref(objExpr, ctx)
    if (r && !r.path.length && ts.isObjectLiteralExpression(r.expr)) return new AbsObj(r.expr, r.ctx).get(name, this, depth + 1)
    // readonly static field / constant class property
    if (access) {
      const s = this.w.sym(access.name)
      const d = s?.valueDeclaration
      if (d && ts.isPropertyDeclaration(d) && d.initializer && !this.w.assignmentsOf(s).length) return this.constEval(d.initializer, null, depth + 1)
    }
    return UNKNOWN
  }
  _constElem(e, ctx, depth) {
    const i = this.constEval(e.argumentExpression, ctx, depth + 1)
    const r = i && this.deref(e.expression, ctx)
    const out = []
    if (r && !r.path.length && ts.isObjectLiteralExpression(r.expr)) {
      const o = new AbsObj(r.expr, r.ctx)
      for (const k of i.vals) { const v = o.get(String(k), this, depth + 1); if (!v) return UNKNOWN; out.push(...v.vals) }
      return { vals: uniq(out) }
    }
    let b = this.constEval(e.expression, ctx, depth + 1)
    if (b && e.questionDotToken && b.vals.some(x => x == null)) { out.push(undefined); b = { vals: b.vals.filter(x => x != null) }; if (!b.vals.length) return { vals: out } }
    if (b && b.vals.length && b.vals.every(x => x && typeof x === 'object' && Object.getPrototypeOf(x) === Object.prototype)) { for (const x of b.vals) for (const k of i?.vals ?? []) out.push(x[k]); if (!i && b.vals.every(x => !Object.keys(x).length)) return { vals: [undefined] }; if (i) return { vals: uniq(out) } }
    if (b && i && b.vals.every(Array.isArray)) { for (const x of b.vals) for (const k of i.vals) out.push(x[k]); return { vals: uniq(out) } }
    return UNKNOWN
  }
  _elems(expr, ctx, depth) {
    const id = strip(expr)
    const sy = ts.isIdentifier(id) ? this.w.sym(id) : ts.isPropertyAccessExpression(id) ? this.w.sym(id.name) : null
    if (sy && this.w.mutationsOf(sy).length) {
      const v = this.collectVals && ts.isIdentifier(id) ? this.constEval(id, ctx, depth + 1) : null
      return v && v.vals.length === 1 && Array.isArray(v.vals[0]) ? v.vals[0].map(a => ({ vals: [a] })) : null
    }
    const r = this.deref(expr, ctx)
    let x = r && !r.path.length ? r.expr : null
    let c = r?.ctx
    if (x && ts.isNewExpression(x) && /^(Readonly)?Set$/.test(strip(x.expression).getText()) && x.arguments?.[0]) { const a0 = strip(x.arguments[0]); if (this.collectVals && ts.isIdentifier(a0) && this.w.mutationsOf(this.w.sym(a0)).length) { const els = this._elems(a0, c, depth + 1); return els && els.filter((a, i) => els.findIndex(b => b.vals[0] === a.vals[0]) === i) } const d = this.deref(x.arguments[0], c); if (d && (d.path.length || !ts.isArrayLiteralExpression(d.expr))) { const v = this.constEval(x.arguments[0], c, depth + 1); if (v && v.vals.length === 1 && Array.isArray(v.vals[0])) return v.vals[0].map(a => ({ vals: [a] })) } x = d?.path.length === 0 ? d.expr : null; c = d?.ctx }
    if (!x || !ts.isArrayLiteralExpression(x)) {
      const v = this.constEval(expr, ctx, depth + 1)
      if (v && v.vals.length === 1 && Array.isArray(v.vals[0])) return v.vals[0].map(a => ({ vals: [a] }))
      return null
    }
    const out = []
    for (const el of x.elements) {
      if (ts.isSpreadElement(el)) { const sub = this._elems(el.expression, c, depth + 1); if (!sub) return null; out.push(...sub) } else out.push(this.constEval(el, c, depth + 1))
    }
    return out
  }
  /** Array literal of constants as one value. */
  _arrayOf(expr, ctx, depth) {
    const els = this._elems(expr, ctx, depth)
    return els && els.every(x => x && x.vals.length === 1) ? { vals: [els.map(x => x.vals[0])] } : UNKNOWN
  }
  _constIter(m, arr, cb, ctx, depth) {
    const res = []
    for (let i = 0; i < arr.length; i++) {
      const bind = new Map(); cb.parameters.forEach((p, j) => bind.set(p, j === 0 ? arr[i] : j === 1 ? i : undefined))
      const cx = { fn: cb, call: null, parent: ctx, defCtx: ctx, cbOf: null, bind, depth: (ctx?.depth ?? 0) + 1 }
      this.pure++
      const savedSt = this.curSt
      let v
      try { const r = this._fn(cb, EMPTY, cx, Math.max(0, this.maxDepth - 6)); v = r.valUnknown || r.vals.length !== 1 ? SKIP : r.vals[0] } finally { this.pure--; this.curSt = savedSt }
      if (v === SKIP) return SKIP
      if (m === 'some' && v) return true
      if (m === 'every' && !v) return false
      if (m === 'find' && v) return arr[i]
      if (m === 'findIndex' && v) return i
      res.push(v)
    }
    return m === 'some' ? false : m === 'every' ? true : m === 'find' ? undefined : m === 'findIndex' ? -1 : m === 'map' ? res : arr.filter((_, i) => res[i])
  }
  _constCall(e, ctx, depth) {
    const callee = strip(e.expression)
    if (ts.isPropertyAccessExpression(callee)) {
      const m = callee.name.text
      if (e.questionDotToken || callee.questionDotToken) {
        const b = this.constEval(callee.expression, ctx, depth + 1)
        if (b && b.vals.every(x => x === undefined || x === null)) return { vals: [undefined] }
      }
      if (this.collectVals && /^(has|get|values|keys|entries)$/.test(m) && ts.isIdentifier(strip(callee.expression))) {
        const d = this.w.declOf(strip(callee.expression))
        if (d && ts.isVariableDeclaration(d) && this._keyed(d)) {
          const b = this.constEval(callee.expression, ctx, depth + 1)
          const c = b?.vals.length === 1 && (b.vals[0] instanceof Map || b.vals[0] instanceof Set) ? b.vals[0] : null
          if (c && !e.arguments.length) return { vals: [[...c[m]()]] }
          const k = c && this.constEval(e.arguments[0], ctx, depth + 1)
          if (k?.vals.length === 1) { const v = c[m](k.vals[0]); return v === UNSURE ? UNKNOWN : { vals: [v] } }
        }
      }
      if ((m === 'includes' || m === 'has' || m === 'indexOf') && e.arguments.length === 1) {
        const els = this._elems(callee.expression, ctx, depth + 1)
        const a = this.constEval(e.arguments[0], ctx, depth + 1)
        if (els && !els.length && m !== 'indexOf') return { vals: [false] }
        if (els && a) {
          const out = []
          for (const v of a.vals) {
            let sure = false, maybe = false
            for (const x of els) { if (!x) { maybe = true; continue } if (x.vals.length === 1 && x.vals[0] === v) sure = true; else if (x.vals.includes(v)) maybe = true }
            if (sure) out.push(true); else if (maybe) out.push(true, false); else out.push(false)
          }
          if (m === 'indexOf') {
            if (!els.every(x => x && x.vals.length === 1)) return UNKNOWN
            const flat = els.map(x => x.vals[0])
            return { vals: uniq(a.vals.map(v => flat.indexOf(v))) }
          }
          return { vals: uniq(out) }
        }
        const bs = this.constEval(callee.expression, ctx, depth + 1)
        if (bs && a && this.collectVals && bs.vals.length === 1 && a.vals.length === 1) {
          const c = bs.vals[0], v = a.vals[0]
          if (m === 'has' && (c instanceof Set || c instanceof Map) && ![...c.keys()].includes(UNSURE)) return { vals: [c.has(v)] }
          if (m !== 'has' && Array.isArray(c) && !c.includes(UNSURE)) return { vals: [m === 'indexOf' ? c.indexOf(v) : c.includes(v)] }
        }
        if (bs && a && bs.vals.every(x => typeof x === 'string')) return { vals: uniq(bs.vals.flatMap(s => a.vals.map(v => m === 'indexOf' ? s.indexOf(v) : s.includes(v)))) }
      }
      if (['some', 'every', 'find', 'filter', 'map', 'findIndex'].includes(m) && e.arguments.length === 1) {
        const b = this.constEval(callee.expression, ctx, depth + 1) ?? this._arrayOf(callee.expression, ctx, depth + 1)
        const cb = strip(e.arguments[0])
        const named = ts.isIdentifier(cb) && { Boolean, String, Number, encodeURIComponent, decodeURIComponent }[cb.text]
        if (named && b && b.vals.every(Array.isArray) && (m === 'filter' || m === 'map' || m === 'some' || m === 'every')) return { vals: b.vals.map(x => x[m](v => named(v))) }
        if (b && b.vals.every(Array.isArray) && (ts.isArrowFunction(cb) || ts.isFunctionExpression(cb)) && cb.parameters.every(p => ts.isIdentifier(p.name))) {
          const out = []
          for (const arr of b.vals) { const v = this._constIter(m, arr, cb, ctx, depth); if (v === SKIP) return UNKNOWN; out.push(v) }
          return { vals: uniq(out) }
        }
      }
      if (this.collectVals && (m === 'then' || m === 'catch' || m === 'finally') && this._isPromise(callee.expression)) {
        // value of a promise that is kept
        const b = this.constEval(callee.expression, ctx, depth + 1)
        if (!b || m !== 'then') return b ?? UNKNOWN
        const cb = e.arguments[0] && strip(e.arguments[0])
        if (!cb || !(ts.isArrowFunction(cb) || ts.isFunctionExpression(cb)) || !cb.parameters.every(p => ts.isIdentifier(p.name))) return UNKNOWN
        const out = []
        for (const x of b.vals) { const v = this._constIter('map', [x], cb, ctx, depth); if (v === SKIP) return UNKNOWN; out.push(...v) }
        return { vals: uniq(out) }
      }
      if (m === 'hasOwn' && callee.expression.getText() === 'Object' && e.arguments.length === 2 || m === 'hasOwnProperty' && e.arguments.length === 1 || callee.getText() === 'Object.prototype.hasOwnProperty.call') {
        const oe = e.arguments.length === 2 ? e.arguments[0] : callee.expression
        const o = this.constEval(oe, ctx, depth + 1), k = this.constEval(e.arguments[e.arguments.length - 1], ctx, depth + 1)
        if (o && o.vals.every(x => isPlain(x) && !Object.keys(x).length)) return { vals: [false] }
        if (o && k && o.vals.every(isPlain)) return { vals: uniq(o.vals.flatMap(x => k.vals.map(y => Object.prototype.hasOwnProperty.call(x, y)))) }
      }
      if (['keys', 'values', 'entries'].includes(m) && callee.expression.getText() === 'Object' && e.arguments.length === 1) {
        const o = this.constEval(e.arguments[0], ctx, depth + 1)
        if (o && o.vals.every(isPlain)) return { vals: o.vals.map(x => Object[m](x)) }
      }
      if (m === 'get' && e.arguments.length === 1) {
        // constant lookup table
        const r = this.deref(callee.expression, ctx)
        const nw = r && !r.path.length ? r.expr : null
        if (nw && ts.isNewExpression(nw) && /^Map$/.test(strip(nw.expression).getText()) && nw.arguments?.[0] && ts.isArrayLiteralExpression(strip(nw.arguments[0]))) {
          const k = this.constEval(e.arguments[0], ctx, depth + 1)
          const rows = strip(nw.arguments[0]).elements.map(strip)
          if (k && rows.every(x => ts.isArrayLiteralExpression(x) && x.elements.length === 2)) {
            const out = []
            for (const kv of k.vals) {
              let hit = { vals: [undefined] }
              for (const x of rows) { const kk = this.constEval(x.elements[0], r.ctx, depth + 1); if (!kk) return UNKNOWN; if (kk.vals.includes(kv)) hit = this.constEval(x.elements[1], r.ctx, depth + 1) }
              if (!hit) return UNKNOWN
              out.push(...hit.vals)
            }
            return { vals: uniq(out) }
          }
        }
      }
      if ((m === 'entries' || m === 'values' || m === 'keys') && !e.arguments.length && this.collectVals) {
        const b = this.constEval(callee.expression, ctx, depth + 1)
        if (b && b.vals.length === 1 && Array.isArray(b.vals[0])) return { vals: [[...b.vals[0][m]()]] }
      }
      if ((m === 'sort' || m === 'reverse' || m === 'toSorted' || m === 'toReversed') && !e.arguments.length) {
        const b = this.constEval(callee.expression, ctx, depth + 1)
        if (b && b.vals.length && b.vals.every(Array.isArray)) return { vals: b.vals.map(x => /ort/.test(m) ? [...x].sort() : [...x].reverse()) }
      }
      if (STR_METHODS.has(m) || m === 'test' || m === 'join' || m === 'at') {
        const b = this.constEval(callee.expression, ctx, depth + 1)
        const kind = x => typeof x === 'string' ? STR_METHODS.has(m) : x instanceof RegExp ? m === 'test' : Array.isArray(x) ? m === 'join' || m === 'slice' || m === 'concat' || m === 'at' : false
        if (b && b.vals.length && b.vals.every(kind)) {
          let acc = [[]]
          for (const a of e.arguments) { const v = ts.isSpreadElement(a) ? null : this.constEval(a, ctx, depth + 1); if (!v) { acc = null; break } acc = acc.flatMap(x => v.vals.map(y => [...x, y])) }
          if (acc && acc.length * b.vals.length <= 64 && acc.every(x => x.every(y => y === null || typeof y !== 'object' || y instanceof RegExp)) && (m !== 'test' || acc.every(x => typeof x[0] === 'string'))) {
            const out = []
            for (const r of b.vals) for (const as of acc) { if (r instanceof RegExp) r.lastIndex = 0; try { out.push(r[m](...as)) } catch { return UNKNOWN } }
            return { vals: uniq(out) }
          }
        }
      }
    }
    const cn = callee.getText()
    if ((cn === 'Boolean' || cn === 'String' || cn === 'Number') && e.arguments.length === 1) {
      const a = this.constEval(e.arguments[0], ctx, depth + 1)
      return a ? { vals: uniq(a.vals.map(x => (cn === 'Boolean' ? Boolean(x) : cn === 'String' ? String(x) : Number(x)))) } : UNKNOWN
    }
    if (/^(en|de)codeURI(Component)?$/.test(cn) && e.arguments.length === 1) {
      const a = this.constEval(e.arguments[0], ctx, depth + 1)
      try { return a && a.vals.every(x => typeof x === 'string') ? { vals: uniq(a.vals.map(x => globalThis[cn](x))) } : UNKNOWN } catch { return UNKNOWN }
    }
    if (/(^|\.)(join|dirname|basename|resolve|normalize)$/.test(cn) && this._nodePath(e)) {
      const as = e.arguments.map(a => ts.isSpreadElement(a) ? UNKNOWN : this.constEval(a, ctx, depth + 1))
      if (as.every(a => a && a.vals.length === 1 && typeof a.vals[0] === 'string')) return { vals: [nodePath.posix[cn.split('.').pop()](...as.map(a => a.vals[0]))] }
      return UNKNOWN
    }
    if (cn === 'Array.isArray' && e.arguments.length === 1) {
      const a = this.constEval(e.arguments[0], ctx, depth + 1)
      return a && a.vals.every(x => x === null || typeof x !== 'object' || Array.isArray(x) || Object.getPrototypeOf(x) === Object.prototype) ? { vals: uniq(a.vals.map(x => Array.isArray(x))) } : UNKNOWN
    }
    if (/^(Number\.(isFinite|isNaN|isInteger|isSafeInteger|parseInt|parseFloat)|isNaN|isFinite|parseInt|parseFloat)$/.test(cn) && e.arguments.length) {
      const a = this.constEval(e.arguments[0], ctx, depth + 1)
      const fn = Number[cn.replace(/^Number\./, '')] ?? globalThis[cn]
      return a ? { vals: uniq(a.vals.map(x => fn(x))) } : UNKNOWN
    }
    if (/^Math\.(floor|ceil|min|max|abs|pow|trunc|round)$/.test(cn)) {
      const as = e.arguments.map(a => this.constEval(a, ctx, depth + 1))
      if (as.some(a => !a)) return UNKNOWN
      let acc = [[]]
      for (const a of as) acc = acc.flatMap(x => a.vals.map(v => [...x, v]))
      return { vals: uniq(acc.map(x => Math[cn.slice(5)](...x))) }
    }
    if (depth > (this.collectVals ? 26 : 14)) { this._cut = true; return UNKNOWN }
    let targets = this.w.resolveCall(e, ctx, { opaqueIface: this.opaqueIface })
    if (this.client.targets && targets.length > 1) targets = this.client.targets(targets, e, ctx)
    if (targets.length !== 1) return UNKNOWN
    const { fn, ctx: dctx } = targets[0]
    if (isGenerator(fn)) return UNKNOWN
    let c = ctx, n = 0
    while (c) { if (c.fn === fn) return UNKNOWN; c = c.parent; if (++n > 14) return UNKNOWN }
    if (this._constBusy.has(e)) { this._cut = true; return UNKNOWN }
    const cx = mkCtx(fn, e, ctx, dctx)
    let memo = this._memo ??= new Map()
    if (this.client.closures) {
      if (!this.pure) this._outer = this.curSt
      const k = [...(this._outer?.may ?? [])].filter(x => x.startsWith('def#')).sort().join()
      this._memos ??= new Map()
      if (!this._memos.has(k)) this._memos.set(k, new Map())
      memo = this._memos.get(k)
    }
    if (memo.has(cx)) return memo.get(cx)
    this._constBusy.add(e)
    this.pure++
    const savedCut = this._cut, savedSt = this.curSt
    this._cut = false
    try {
      const r = this._fn(fn, EMPTY, cx, Math.max(0, this.maxDepth - 6))
      const v = r.valUnknown || !r.vals.length ? this._fold(fn, cx, depth) : { vals: r.vals }
      if (!this._cut) memo.set(cx, v)
      return v
    } finally { this.pure--; this.curSt = savedSt; this._constBusy.delete(e); this._cut = savedCut || this._cut }
  }
  /** Constant folding of a helper that builds its result in local variables, loops unrolled. */
  _fold(fn, cx, depth) {
    if (!fn.body || !ts.isBlock(fn.body) || !accumulates(fn)) return UNKNOWN
    const env = new Map()
    let steps = 0
    const STOP = Symbol('stop'), BRK = Symbol('brk'), CNT = Symbol('cnt')
    const fail = () => { throw STOP }
    const ev = e => {
      if (++steps > 3000) fail()
      e = stripAwait(e)
      if (ts.isArrayLiteralExpression(e) && !e.elements.length) return []
      if (ts.isBinaryExpression(e) && e.operatorToken.kind >= K.FirstAssignment && e.operatorToken.kind <= K.LastAssignment) return assign(e)
      if ((ts.isPostfixUnaryExpression(e) || ts.isPrefixUnaryExpression(e)) && (e.operator === K.PlusPlusToken || e.operator === K.MinusMinusToken)) {
        const d = slot(e.operand), o = env.get(d)
        if (typeof o !== 'number') fail()
        const n = o + (e.operator === K.PlusPlusToken ? 1 : -1)
        env.set(d, n)
        return ts.isPostfixUnaryExpression(e) ? o : n
      }
      if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(strip(e.expression)) && /^(push|unshift|pop|shift|reverse|sort)$/.test(strip(e.expression).name.text)) {
        const t = strip(strip(e.expression).expression)
        if (ts.isIdentifier(t) && env.has(this.w.declOf(t))) {
          const a = env.get(this.w.declOf(t)), m = strip(e.expression).name.text
          if (!Array.isArray(a) || (m === 'sort' && e.arguments.length)) fail()
          return a[m](...e.arguments.flatMap(x => ts.isSpreadElement(x) ? ev(x.expression) : [ev(x)]))
        }
      }
      const v = this.constEval(e, { ...cx, bind: env }, depth + 1)
      if (!v || v.vals.length !== 1) fail()
      return v.vals[0]
    }
    const slot = e => { e = strip(e); const d = ts.isIdentifier(e) ? this.w.declOf(e) : null; if (!d || !env.has(d)) fail(); return d }
    const assign = e => {
      const d = slot(e.left), op = e.operatorToken.kind
      let v = ev(e.right)
      if (op !== K.EqualsToken) { const f = BIN[COMPOUND[op]]; if (!f) fail(); v = f(env.get(d), v) }
      env.set(d, v)
      return v
    }
    const decl = l => { for (const d of l.declarations) { if (!ts.isIdentifier(d.name)) fail(); env.set(d, d.initializer ? ev(d.initializer) : undefined) } }
    // returns null to go on, BRK, CNT or {v}
    const go = s => {
      if (++steps > 3000) fail()
      if (ts.isBlock(s)) { for (const x of s.statements) { const o = go(x); if (o) return o } return null }
      if (ts.isVariableStatement(s)) { decl(s.declarationList); return null }
      if (ts.isExpressionStatement(s)) { ev(s.expression); return null }
      if (ts.isReturnStatement(s)) return { v: s.expression ? ev(s.expression) : undefined }
      if (ts.isIfStatement(s)) return ev(s.expression) ? go(s.thenStatement) : s.elseStatement ? go(s.elseStatement) : null
      if (ts.isBreakStatement(s) && !s.label) return BRK
      if (ts.isContinueStatement(s) && !s.label) return CNT
      if (ts.isForOfStatement(s) && ts.isVariableDeclarationList(s.initializer) && ts.isIdentifier(s.initializer.declarations[0].name)) {
        const it = ev(s.expression)
        if (!Array.isArray(it) && typeof it !== 'string') fail()
        for (const x of it) { env.set(s.initializer.declarations[0], x); const o = go(s.statement); if (o === BRK) break; if (o && o !== CNT) return o }
        return null
      }
      if (ts.isForStatement(s)) {
        if (s.initializer) ts.isVariableDeclarationList(s.initializer) ? decl(s.initializer) : ev(s.initializer)
        while (!s.condition || ev(s.condition)) { const o = go(s.statement); if (o === BRK) break; if (o && o !== CNT) return o; if (s.incrementor) ev(s.incrementor) }
        return null
      }
      if (ts.isWhileStatement(s)) { while (ev(s.expression)) { const o = go(s.statement); if (o === BRK) break; if (o && o !== CNT) return o } return null }
      if (ts.isFunctionDeclaration(s) || s.kind === K.EmptyStatement) return null
      return fail()
    }
    try { const o = go(fn.body); return { vals: [o && o.v !== undefined ? o.v : undefined] } } catch (x) { if (x === STOP) return UNKNOWN; throw x }
  }
  _nodePath(e) {
    const f = this.w.checker.getResolvedSignature(e)?.declaration?.getSourceFile?.()?.fileName ?? ''
    return /@types\/node\/path/.test(f)
  }
  // ── aliases ───────────────────────────────────────────────────────────
  /** Follow single-assignment aliases: {expr, ctx, path} with pending property path. */
  deref(e, ctx, path = [], depth = 0) {
    e = stripAwait(e)
    if (!e || depth > 30) return { expr: e, ctx, path }
    if (ts.isIdentifier(e)) {
      const s = this.w.sym(e)
      const d = s?.valueDeclaration
      if (d && ts.isVariableDeclaration(d) && ts.isIdentifier(d.name) && d.initializer && !this.w.assignmentsOf(s).length) return this.deref(d.initializer, ctx, path, depth + 1)
      if (d && ts.isBindingElement(d) && ts.isIdentifier(d.name) && !d.dotDotDotToken) {
        const nm = ts.isObjectBindingPattern(d.parent) ? (d.propertyName ?? d.name).text : String(d.parent.elements.indexOf(d))
        let host = d.parent.parent, p = [nm, ...path]
        while (host && ts.isBindingElement(host)) { p = [ts.isObjectBindingPattern(host.parent) ? (host.propertyName ?? host.name).text : String(host.parent.elements.indexOf(host)), ...p]; host = host.parent.parent }
        if (host && ts.isVariableDeclaration(host) && host.initializer) return this.deref(host.initializer, ctx, p, depth + 1)
        if (host && ts.isParameter(host)) { const a = this.w.argFor(host, ctx); if (a?.expr) return this.deref(a.expr, a.ctx, p, depth + 1) }
        return { expr: e, ctx, path, decl: d }
      }
      if (d && ts.isParameter(d)) { const a = this.w.argFor(d, ctx); if (a?.expr) return this.deref(a.expr, a.ctx, path, depth + 1) }
      return { expr: e, ctx, path, decl: d }
    }
    if (ts.isPropertyAccessExpression(e)) {
      const r = this.deref(e.expression, ctx, [e.name.text, ...path], depth + 1)
      return r
    }
    if (ts.isObjectLiteralExpression(e) && path.length) {
      for (let i = e.properties.length - 1; i >= 0; i--) {
        const p = e.properties[i]
        if (ts.isSpreadAssignment(p)) return { expr: e, ctx, path }
        if (p.name?.text === path[0] || p.name?.getText?.() === path[0]) {
          if (ts.isPropertyAssignment(p)) return this.deref(p.initializer, ctx, path.slice(1), depth + 1)
          if (ts.isShorthandPropertyAssignment(p)) return this.deref(p.name, ctx, path.slice(1), depth + 1)
        }
      }
    }
    return { expr: e, ctx, path }
  }
}
const COMPOUND = { [K.PlusEqualsToken]: K.PlusToken, [K.MinusEqualsToken]: K.MinusToken, [K.AsteriskEqualsToken]: K.AsteriskToken, [K.BarEqualsToken]: K.BarToken, [K.CaretEqualsToken]: K.CaretToken, [K.AmpersandEqualsToken]: K.AmpersandToken }
function accumulates(fn) {
  if (fn._acc === undefined) {
    fn._acc = false
    const go = n => { if (ts.isForOfStatement(n) || ts.isForStatement(n) || ts.isWhileStatement(n) || (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment)) fn._acc = true; else if (!fn._acc) ts.forEachChild(n, go) }
    go(fn.body)
  }
  return fn._acc
}
function join2(a, b) { return b ? join(a, b) : a }
function uniq(a) { const o = []; for (const x of a) if (!o.some(y => Object.is(y, x))) o.push(x); return o }
const isPlain = o => !!o && typeof o === 'object' && Object.getPrototypeOf(o) === Object.prototype
const STR_METHODS = new Set(['startsWith', 'endsWith', 'trim', 'trimStart', 'trimEnd', 'toLowerCase', 'toUpperCase', 'slice', 'substring', 'charAt', 'charCodeAt', 'replace', 'replaceAll', 'split', 'concat', 'normalize', 'padStart', 'padEnd', 'lastIndexOf', 'search', 'repeat'])
const SKIP = Symbol('skip')
const UNSURE = Symbol('unsure')
const BIN = {
  [K.EqualsEqualsEqualsToken]: (a, b) => a === b, [K.ExclamationEqualsEqualsToken]: (a, b) => a !== b,
  [K.EqualsEqualsToken]: (a, b) => a == b, [K.ExclamationEqualsToken]: (a, b) => a != b,
  [K.LessThanToken]: (a, b) => a < b, [K.LessThanEqualsToken]: (a, b) => a <= b,
  [K.GreaterThanToken]: (a, b) => a > b, [K.GreaterThanEqualsToken]: (a, b) => a >= b,
  [K.PlusToken]: (a, b) => a + b, [K.MinusToken]: (a, b) => a - b, [K.AsteriskToken]: (a, b) => a * b, [K.SlashToken]: (a, b) => a / b,
  [K.PercentToken]: (a, b) => a % b, [K.LessThanLessThanToken]: (a, b) => a << b, [K.GreaterThanGreaterThanToken]: (a, b) => a >> b, [K.GreaterThanGreaterThanGreaterThanToken]: (a, b) => a >>> b, [K.AmpersandToken]: (a, b) => a & b, [K.BarToken]: (a, b) => a | b, [K.CaretToken]: (a, b) => a ^ b, [K.AsteriskAsteriskToken]: (a, b) => a ** b,
}
export class Opaque {}
/** Object literal seen by constant propagation. */
export class AbsObj {
  constructor(lit, ctx) { this.lit = lit; this.ctx = ctx }
  get(name, I, depth) {
    for (let i = this.lit.properties.length - 1; i >= 0; i--) {
      const p = this.lit.properties[i]
      if (ts.isSpreadAssignment(p)) {
        const v = I._spread(p.expression, name, this.ctx, depth + 1)
        if (!v || v.vals.length !== 1) return null
        if (v.vals[0] !== undefined) return v
        continue
      }
      const nm = p.name && (p.name.text ?? p.name.getText())
      if (nm === name) {
        if (ts.isPropertyAssignment(p)) { const v = I.constEval(p.initializer, this.ctx, depth + 1), l = strip(p.initializer); return v ?? (I.collectVals && ts.isObjectLiteralExpression(l) ? { vals: [new AbsObj(l, this.ctx)] } : v) }
        if (ts.isShorthandPropertyAssignment(p)) return I.constEval(p.name, this.ctx, depth + 1)
        return null
      }
    }
    return { vals: [undefined] }
  }
}
