// Resolved view of the program: functions, call sites, callee resolution
// (through types, function-valued fields, options objects and interface
// implementations), member naming and class helpers.
import { ts, REPO, loadProgram } from './program.mjs'
import path from 'node:path'
import fs from 'node:fs'

export { ts, REPO }
const K = ts.SyntaxKind

export function strip(e) {
  while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isSatisfiesExpression?.(e) || ts.isTypeAssertionExpression?.(e))) e = e.expression
  return e
}
/** strip() plus await and void. */
export function stripAwait(e) {
  e = strip(e)
  while (e && ts.isAwaitExpression(e)) e = strip(e.expression)
  return e
}
export function isFnLike(n) {
  return ts.isFunctionDeclaration(n) || ts.isFunctionExpression(n) || ts.isArrowFunction(n) || ts.isMethodDeclaration(n) ||
    ts.isConstructorDeclaration(n) || ts.isGetAccessorDeclaration(n) || ts.isSetAccessorDeclaration(n)
}
export function enclosingFn(n) {
  let p = n.parent
  while (p && !isFnLike(p)) p = p.parent
  return p
}
export function walkNodes(root, cb) {
  const rec = n => { if (cb(n) === false) return; ts.forEachChild(n, rec) }
  rec(root)
}
/** Visit nodes of one function body without descending into nested functions. */
export function walkOwn(fn, cb) {
  const rec = n => {
    if (n !== fn && isFnLike(n)) { cb(n); return }
    if (n !== fn) cb(n)
    ts.forEachChild(n, rec)
  }
  ts.forEachChild(fn, rec)
}
export function hasMod(n, kind) { return !!n.modifiers?.some(m => m.kind === kind) }
export function isAsync(fn) { return hasMod(fn, K.AsyncKeyword) }
export function isGenerator(fn) { return !!fn.asteriskToken }

const SAME = { same: true }
const optKey = o => `${o.allCallers === false ? 'n' : 'a'}${o.opaqueIface ? [...o.opaqueIface].join() : ''}`
const TOP = { kids: new Map() }
/** Calling context, hash-consed so that equal call chains are the same object. */
export function mkCtx(fn, call = null, parent = null, defCtx = null, cbOf = null) {
  const host = parent ?? TOP
  const kids = host.kids ?? (host.kids = new Map())
  const k1 = call ?? cbOf ?? fn
  let l = kids.get(k1)
  if (!l) kids.set(k1, (l = []))
  for (const c of l) if (c.fn === fn && c.call === call && c.defCtx === defCtx && c.cbOf === cbOf) return c
  const c = { fn, call, parent, defCtx, cbOf, depth: (parent?.depth ?? 0) + 1 }
  l.push(c)
  return c
}

export class World {
  constructor() {
    const t0 = Date.now()
    Object.assign(this, loadProgram())
    this.loadMs = Date.now() - t0
    this.sourceFiles = this.program.getSourceFiles().filter(sf => this.isRepoFile(sf))
    this.fns = []
    this.calls = []
    this.news = []
    this.objLits = []
    this.classes = new Map()   // name -> [decl]
    this.functionsByName = new Map()
    for (const sf of this.sourceFiles) this._index(sf)
    this._callSites = null
    this._impls = null
    this._symCache = new Map()
    this._assignCache = null
  }
  isRepoFile(sf) { return sf.fileName.startsWith(path.join(REPO, 'packages') + '/') && sf.fileName.includes('/src/') && !sf.fileName.includes('/node_modules/') && !sf.isDeclarationFile }
  rel(n) { return path.relative(REPO, n.getSourceFile().fileName) }
  loc(n) {
    const sf = n.getSourceFile()
    const { line } = sf.getLineAndCharacterOfPosition(n.getStart(sf))
    return `${this.rel(n)}:${line + 1}`
  }
  pkgOf(n) { const m = /packages\/([^/]+)\//.exec(n.getSourceFile().fileName); return m ? m[1] : '' }
  _index(sf) {
    const rec = n => {
      if (isFnLike(n) && n.body) {
        this.fns.push(n)
        if (ts.isFunctionDeclaration(n) && n.name) {
          const a = this.functionsByName.get(n.name.text) ?? []
          a.push(n); this.functionsByName.set(n.name.text, a)
        }
      }
      if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name) && n.initializer && (ts.isArrowFunction(n.initializer) || ts.isFunctionExpression(n.initializer))) {
        const a = this.functionsByName.get(n.name.text) ?? []
        a.push(n.initializer); this.functionsByName.set(n.name.text, a)
      }
      if (ts.isCallExpression(n)) this.calls.push(n)
      if (ts.isNewExpression(n)) this.news.push(n)
      if (ts.isObjectLiteralExpression(n)) this.objLits.push(n)
      if (ts.isClassDeclaration(n) && n.name) {
        const a = this.classes.get(n.name.text) ?? []
        a.push(n); this.classes.set(n.name.text, a)
      }
      ts.forEachChild(n, rec)
    }
    rec(sf)
  }
  // ── naming ────────────────────────────────────────────────────────────
  fnName(fn) {
    if (!fn) return '<module>'
    if (ts.isSourceFile(fn)) return '<module>'
    if (ts.isConstructorDeclaration(fn)) return `${fn.parent.name?.text ?? '?'}.constructor`
    if (ts.isMethodDeclaration(fn) || ts.isGetAccessorDeclaration(fn) || ts.isSetAccessorDeclaration(fn)) {
      const nm = fn.name.getText()
      if (ts.isClassLike(fn.parent)) return `${fn.parent.name?.text ?? '?'}.${nm}`
      const enc = enclosingFn(fn)
      return `${enc ? this.fnName(enc) + '>' : ''}${nm}`
    }
    if (fn.name) {
      const enc = enclosingFn(fn)
      return `${enc ? this.fnName(enc) + '>' : ''}${fn.name.text}`
    }
    const p = fn.parent
    const enc = enclosingFn(fn)
    const pre = enc ? this.fnName(enc) + '>' : ''
    if (p && ts.isVariableDeclaration(p)) return `${pre}${p.name.getText()}`
    if (p && ts.isPropertyAssignment(p)) return `${pre}${p.name.getText()}`
    if (p && ts.isPropertyDeclaration(p)) return `${p.parent.name?.text ?? '?'}.${p.name.getText()}`
    return `${pre}<fn>`
  }
  qual(fn) { return `${this.rel(fn)}#${this.fnName(fn)}` }
  /** Function by name in a package (and optionally file suffix); must be unique. */
  findFn(name, where) {
    const [cls, m] = name.includes('.') ? name.split('.') : [null, name]
    const hits = []
    if (cls) {
      for (const c of this.classes.get(cls) ?? []) {
        if (where && !this.rel(c).includes(where)) continue
        for (const mem of c.members) if (isFnLike(mem) && mem.body && (mem.name?.getText() === m || (m === 'constructor' && ts.isConstructorDeclaration(mem)))) hits.push(mem)
      }
    } else {
      for (const f of this.functionsByName.get(m) ?? []) if (f.body && (!where || this.rel(f).includes(where))) hits.push(f)
    }
    return hits
  }
  findClass(name, where) { return (this.classes.get(name) ?? []).filter(c => !where || this.rel(c).includes(where)) }
  // ── symbols ───────────────────────────────────────────────────────────
  sym(node) {
    let s = this._symCache.get(node)
    if (s !== undefined) return s
    s = this.checker.getSymbolAtLocation(node) ?? null
    if (s && (s.flags & ts.SymbolFlags.Alias)) { try { s = this.checker.getAliasedSymbol(s) } catch { /* unresolved */ } }
    if (s && ts.isShorthandPropertyAssignment(node.parent ?? node) && node.parent.name === node) {
      const v = this.checker.getShorthandAssignmentValueSymbol(node.parent)
      if (v) s = (v.flags & ts.SymbolFlags.Alias) ? this.checker.getAliasedSymbol(v) : v
    }
    this._symCache.set(node, s)
    return s
  }
  declOf(node) { const s = this.sym(node); return s?.valueDeclaration ?? s?.declarations?.[0] ?? null }
  /** "Owner.member" for a property access (NoydbStore.put, SubtleCrypto.encrypt, Map.set, ...). */
  memberName(access) {
    access = strip(access)
    if (!access) return null
    if (ts.isPropertyAccessExpression(access)) {
      const s = this.sym(access.name)
      const d = s?.declarations?.[0]
      const own = this.ownerName(d)
      return own ? `${own}.${access.name.text}` : `?.${access.name.text}`
    }
    return null
  }
  ownerName(d) {
    let p = d?.parent
    if (p && ts.isModuleBlock(p)) return p.parent.name?.text?.replace(/['"]/g, '') ?? null
    if (p && ts.isTypeLiteralNode(p)) { const t = p.parent; return ts.isTypeAliasDeclaration(t) ? t.name.text : (t && ts.isVariableDeclaration(t) ? t.name.getText() : null) }
    if (p && (ts.isInterfaceDeclaration(p) || ts.isClassLike(p) || ts.isEnumDeclaration(p))) return p.name?.text ?? null
    if (p && ts.isParameter(d)) return null
    return null
  }
  calleeName(call) {
    const c = strip(call.expression)
    if (ts.isPropertyAccessExpression(c)) return this.memberName(c)
    if (ts.isIdentifier(c)) {
      const d = this.declOf(c)
      if (d && isFnLike(d) && d.name) return d.name.text
      return c.text
    }
    return null
  }
  typeName(node) {
    const t = this.checker.getTypeAtLocation(node)
    const n = this.checker.getNonNullableType(t)
    return n.aliasSymbol?.name ?? n.symbol?.name ?? this.checker.typeToString(n)
  }
  // ── assignments ───────────────────────────────────────────────────────
  _buildAssign() {
    if (this._assignCache) return this._assignCache
    const m = new Map()
    const add = (s, e, node) => { if (!s) return; const a = m.get(s) ?? []; a.push({ value: e, node }); m.set(s, a) }
    for (const sf of this.sourceFiles) {
      walkNodes(sf, n => {
        if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) {
          const l = strip(n.left)
          if (ts.isIdentifier(l)) add(this.sym(l), n.right, n)
          else if (ts.isPropertyAccessExpression(l)) add(this.sym(l.name), n.right, n)
        } else if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken)) {
          const l = strip(n.operand)
          if (ts.isIdentifier(l)) add(this.sym(l), n, n)
          else if (ts.isPropertyAccessExpression(l)) add(this.sym(l.name), n, n)
        }
      })
    }
    return (this._assignCache = m)
  }
  assignmentsOf(sym) { return this._buildAssign().get(sym) ?? [] }
  /** Values that flow into the object held by a variable or property through mutation: [{value, how, call}]. */
  mutationsOf(sym) {
    if (!this._mut) {
      const m = this._mut = new Map()
      const add = (node, value, how, call) => {
        node = strip(node)
        while (node && ts.isElementAccessExpression(node)) node = strip(node.expression)
        const s = node && ts.isIdentifier(node) ? this.sym(node) : node && ts.isPropertyAccessExpression(node) ? this.sym(node.name) : null
        if (!s) return
        const a = m.get(s) ?? []; a.push({ value, how, call }); m.set(s, a)
      }
      for (const sf of this.sourceFiles) walkNodes(sf, n => {
        if (ts.isCallExpression(n)) {
          const c = strip(n.expression)
          if (ts.isPropertyAccessExpression(c)) {
            if (['push', 'set', 'unshift', 'add', 'fill', 'append'].includes(c.name.text)) n.arguments.forEach((a, i) => { const args = ts.isSpreadElement(a) ? a.expression : a; add(c.expression, args, ts.isSpreadElement(a) ? 'spread' : c.name.text === 'set' && n.arguments.length > 1 ? (i === 1 ? 'value' : 'key') : 'elem', n) })
            if (c.name.text === 'getRandomValues' && n.arguments[0]) add(n.arguments[0], n, 'fill', n)
          }
        }
        if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) {
          const l = strip(n.left)
          if (ts.isElementAccessExpression(l)) add(l, n.right, 'elem', n)
        }
      })
    }
    return this._mut.get(sym) ?? []
  }
  // ── implementations of interface members ─────────────────────────────
  _buildImpls() {
    if (this._impls) return this._impls
    const m = new Map() // signature declaration -> [{value, holder}]
    const add = (d, v, holder) => { const a = m.get(d) ?? []; if (!a.some(x => x.value === v)) a.push({ value: v, holder }); m.set(d, a) }
    const addLit = (lit, type) => {
      for (const p of lit.properties) {
        if (ts.isSpreadAssignment(p)) {
          const inner = []
          const dig = e => { e = strip(e); if (ts.isObjectLiteralExpression(e)) inner.push(e); else if (ts.isBinaryExpression(e)) { dig(e.left); dig(e.right) } else if (ts.isConditionalExpression(e)) { dig(e.whenTrue); dig(e.whenFalse) } }
          dig(p.expression)
          for (const i of inner) addLit(i, type)
          continue
        }
        if (!p.name || ts.isComputedPropertyName(p.name)) continue
        const nm = p.name.text ?? p.name.getText()
        const ps = type.getProperty(nm)
        for (const d of ps?.declarations ?? []) {
          const v = ts.isPropertyAssignment(p) ? p.initializer : ts.isShorthandPropertyAssignment(p) ? p.name : p
          if (d !== p) add(d, v, lit)
        }
      }
    }
    const types = t => (t.isUnion?.() ? t.types : [t])
    for (const lit of this.objLits) {
      const ct = this.checker.getContextualType(lit)
      if (ct) for (const t of types(ct)) if (t.getProperty) addLit(lit, t)
    }
    for (const list of this.classes.values()) for (const c of list) {
      for (const h of c.heritageClauses ?? []) for (const te of h.types) {
        const t = this.checker.getTypeAtLocation(te)
        for (const mem of c.members) {
          const nm = mem.name?.getText?.()
          if (!nm) continue
          const ps = t.getProperty?.(nm)
          for (const d of ps?.declarations ?? []) if (d !== mem) add(d, mem, c)
        }
      }
    }
    return (this._impls = m)
  }
  implsOf(sigDecl) { return this._buildImpls().get(sigDecl) ?? [] }
  /** Object literals and classes that implement the named interface. */
  implementers(ifaceName) {
    const out = new Set()
    for (const [d, list] of this._buildImpls()) if (this.ownerName(d) === ifaceName) for (const x of list) out.add(x.holder)
    return [...out]
  }
  // ── callee resolution ─────────────────────────────────────────────────
  /** Functions with bodies a call may run: [{fn, ctx}] ; ctx is the definition context. */
  resolveCall(call, ctx, opts = {}) {
    if (ts.isNewExpression(call)) {
      const s = this.sym(strip(call.expression))
      const cls = s?.declarations?.find(ts.isClassDeclaration)
      if (!cls || !this.isRepoFile(cls.getSourceFile())) return []
      const ctor = cls.members.find(m => ts.isConstructorDeclaration(m) && m.body)
      return ctor ? [{ fn: ctor, ctx: null }] : []
    }
    if (ctx?.rc?.has(call)) { const hit = ctx.rc.get(call).get(optKey(opts)); if (hit) return hit }
    const ck = optKey(opts)
    const cached = call._rc?.get(ck)
    if (cached) return cached.some(t => t.ctx === SAME) ? cached.map(t => (t.ctx === SAME ? { fn: t.fn, ctx } : t)) : cached
    const saved = this._ctxUsed
    this._ctxUsed = false
    const r = this.resolveFnValue(call.expression, ctx, opts, 0, new Set())
    if (!this._ctxUsed) { (call._rc ??= new Map()).set(ck, ctx ? r.map(t => (t.ctx === ctx ? { fn: t.fn, ctx: SAME } : t)) : r.map(t => (t.ctx === null ? { fn: t.fn, ctx: ts.isMethodDeclaration(t.fn) && ts.isClassLike(t.fn.parent) ? null : SAME } : t))) }
    else if (ctx) { const m = (ctx.rc ??= new Map()); if (!m.has(call)) m.set(call, new Map()); m.get(call).set(ck, r) }
    this._ctxUsed = saved || this._ctxUsed
    return r
  }
  implementationOf(decl) {
    if (!decl) return null
    if (isFnLike(decl) && decl.body) return decl
    if (isFnLike(decl) && !decl.body) {
      const s = decl.name && this.checker.getSymbolAtLocation(decl.name)
      return s?.declarations?.find(d => isFnLike(d) && d.body) ?? null
    }
    return null
  }
  resolveFnValue(expr, ctx, opts, depth, seen) {
    expr = strip(expr)
    if (!expr || depth > 12) return []
    if (ts.isArrowFunction(expr) || ts.isFunctionExpression(expr)) return [{ fn: expr, ctx }]
    if (isFnLike(expr) && expr.body) return [{ fn: expr, ctx: null }]
    if (ts.isBinaryExpression(expr) && [K.QuestionQuestionToken, K.BarBarToken, K.AmpersandAmpersandToken].includes(expr.operatorToken.kind)) {
      return [...this.resolveFnValue(expr.left, ctx, opts, depth + 1, seen), ...this.resolveFnValue(expr.right, ctx, opts, depth + 1, seen)]
    }
    if (ts.isConditionalExpression(expr)) return [...this.resolveFnValue(expr.whenTrue, ctx, opts, depth + 1, seen), ...this.resolveFnValue(expr.whenFalse, ctx, opts, depth + 1, seen)]
    if (ts.isCallExpression(expr)) {
      const c = strip(expr.expression)
      if (ts.isPropertyAccessExpression(c) && c.name.text === 'bind') return this.resolveFnValue(c.expression, ctx, opts, depth + 1, seen)
      // function returned by a function
      const outs = []
      for (const t of this.resolveCall(expr, ctx, opts)) {
        this._ctxUsed = true
        const nctx = mkCtx(t.fn, expr, ctx, t.ctx)
        for (const r of this.returnExprs(t.fn)) outs.push(...this.resolveFnValue(stripAwait(r), nctx, opts, depth + 1, seen))
      }
      return outs
    }
    let nameNode = ts.isIdentifier(expr) ? expr : ts.isPropertyAccessExpression(expr) ? expr.name : null
    if (!nameNode) return []
    const s = this.sym(nameNode)
    if (!s) return []
    const key = s
    if (seen.has(key)) return []
    seen = new Set(seen); seen.add(key)
    const out = []
    for (const d of s.declarations ?? []) {
      const impl = this.implementationOf(d)
      if (impl) {
        if (this.isRepoFile(impl.getSourceFile()) && !out.some(o => o.fn === impl)) out.push({ fn: impl, ctx: ts.isMethodDeclaration(impl) && ts.isClassLike(impl.parent) ? null : ctx })
        // a method signature may be overridden/implemented elsewhere: class methods are taken as is
        continue
      }
      if (ts.isVariableDeclaration(d)) {
        if (d.initializer) out.push(...this.resolveFnValue(stripAwait(d.initializer), ctx, opts, depth + 1, seen))
        for (const a of this.assignmentsOf(s)) out.push(...this.resolveFnValue(a.value, ctx, opts, depth + 1, seen))
      } else if (ts.isBindingElement(d)) {
        const pd = d.parent.parent
        const nm = (d.propertyName ?? d.name).text
        const src = ts.isVariableDeclaration(pd) ? pd.initializer : null
        if (src) out.push(...this.propFns(src, nm, ctx, opts, depth + 1, seen))
        const t = this.checker.getTypeAtLocation(d.parent)
        const ps = t.getProperty?.(nm)
        for (const dd of ps?.declarations ?? []) if (!out.length) out.push(...this.fromMemberDecl(dd, ctx, opts, depth + 1, seen))
      } else if (ts.isParameter(d)) {
        const a = this.argFor(d, ctx)
        if (a) out.push(...this.resolveFnValue(a.expr, a.ctx, opts, depth + 1, seen))
        else if (d.initializer) out.push(...this.resolveFnValue(d.initializer, null, opts, depth + 1, seen))
        if (!a && opts.allCallers !== false) {
          for (const site of this.callSitesOf(d.parent)) {
            const i = d.parent.parameters.indexOf(d)
            const arg = site.arguments?.[i]
            if (arg && !ts.isSpreadElement(arg)) out.push(...this.resolveFnValue(arg, null, opts, depth + 1, seen))
          }
        }
      } else {
        if (ts.isPropertyAccessExpression(expr)) {
          const viaObj = this.propFns(expr.expression, expr.name.text, ctx, opts, depth + 1, seen)
          if (viaObj.length) { out.push(...viaObj); continue }
        }
        out.push(...this.fromMemberDecl(d, ctx, opts, depth + 1, seen))
      }
    }
    const uniq = []
    for (const o of out) if (!uniq.some(u => u.fn === o.fn)) uniq.push(o)
    return uniq
  }
  fromMemberDecl(d, ctx, opts, depth, seen) {
    const out = []
    if (isFnLike(d) && d.body && this.isRepoFile(d.getSourceFile())) return [{ fn: d, ctx: null }]
    if (ts.isPropertyDeclaration(d) || (ts.isParameter(d) && ts.isConstructorDeclaration(d.parent))) {
      if (d.initializer) out.push(...this.resolveFnValue(d.initializer, null, opts, depth, seen))
      const s = this.checker.getSymbolAtLocation(d.name)
      for (const a of this.assignmentsOf(s)) out.push(...this.resolveFnValue(a.value, null, opts, depth, seen))
      if (ts.isParameter(d)) {
        const i = d.parent.parameters.indexOf(d)
        for (const site of this.callSitesOf(d.parent)) { const arg = site.arguments?.[i]; if (arg) out.push(...this.resolveFnValue(arg, null, opts, depth, seen)) }
      }
    } else if (ts.isPropertyAssignment(d)) out.push(...this.resolveFnValue(d.initializer, null, opts, depth, seen))
    else if (ts.isShorthandPropertyAssignment(d)) out.push(...this.resolveFnValue(d.name, null, opts, depth, seen))
    else if (ts.isMethodSignature(d) || ts.isPropertySignature(d)) {
      if (opts.opaqueIface?.has(this.ownerName(d))) return out
      for (const i of this.implsOf(d)) {
        const v = i.value
        if (isFnLike(v) && v.body) out.push({ fn: v, ctx: null })
        else if (!isFnLike(v) && !ts.isPropertyDeclaration(v)) out.push(...this.resolveFnValue(v, null, opts, depth, seen))
        else if (ts.isPropertyDeclaration(v) && v.initializer) out.push(...this.resolveFnValue(v.initializer, null, opts, depth, seen))
      }
      // set after the object was made, or an object passed by its shape
      if (!out.length) for (const v of this._assignedTo(d)) out.push(...this.resolveFnValue(v, null, opts, depth, seen))
      if (!out.length && ts.isMethodSignature(d) && ts.isTypeLiteralNode(d.parent)) out.push(...this._shaped(d))
    }
    return out
  }
  /** Values assigned to the member a signature declares, through any object. */
  _assignedTo(d) {
    if (!this._assignDecl) {
      const m = this._assignDecl = new Map()
      for (const [sym, list] of this._buildAssign()) for (const dd of sym.declarations ?? []) if (ts.isPropertySignature(dd) || ts.isMethodSignature(dd)) m.set(dd, [...(m.get(dd) ?? []), ...list.map(a => a.value)])
    }
    return this._assignDecl.get(d) ?? []
  }
  /** Class methods reachable through a structural object type: classes of the package having all its members. */
  _shaped(d) {
    const names = d.parent.members.map(m => m.name?.getText?.()).filter(Boolean)
    const out = []
    for (const list of this.classes.values()) for (const c of list) {
      if (this.pkgOf(c) !== this.pkgOf(d)) continue
      const have = new Map(c.members.map(m => [m.name?.getText?.(), m]))
      const m = have.get(d.name.getText())
      if (m && isFnLike(m) && m.body && names.every(n => have.has(n))) out.push({ fn: m, ctx: null })
    }
    return out
  }
  /** Functions held in property `name` of the object an expression denotes, when it is a visible literal. */
  propFns(objExpr, name, ctx, opts, depth, seen) {
    const lits = this.objectLits(objExpr, ctx, depth)
    const out = []
    for (const { lit, ctx: c } of lits) {
      for (const p of lit.properties) {
        if (p.name?.getText?.() !== name) continue
        if (ts.isMethodDeclaration(p) && p.body) out.push({ fn: p, ctx: c })
        else if (ts.isPropertyAssignment(p)) out.push(...this.resolveFnValue(p.initializer, c, opts, depth + 1, seen))
        else if (ts.isShorthandPropertyAssignment(p)) out.push(...this.resolveFnValue(p.name, c, opts, depth + 1, seen))
      }
    }
    return out
  }
  objectLits(expr, ctx, depth = 0) {
    expr = stripAwait(expr)
    if (!expr || depth > 10) return []
    if (ts.isObjectLiteralExpression(expr)) return [{ lit: expr, ctx }]
    if (ts.isIdentifier(expr)) {
      const d = this.declOf(expr)
      if (d && ts.isVariableDeclaration(d) && d.initializer) return this.objectLits(d.initializer, ctx, depth + 1)
      if (d && ts.isParameter(d)) { const a = this.argFor(d, ctx); if (a) return this.objectLits(a.expr, a.ctx, depth + 1) }
    }
    return []
  }
  /** Argument bound to a parameter in an inlining context. */
  argFor(param, ctx) {
    this._ctxUsed = true
    const fn = param.parent
    let c = ctx
    while (c) {
      if (c.fn === fn) {
        const i = fn.parameters.indexOf(param)
        const args = c.call?.arguments
        if (!args) return null
        const a = args[i]
        if (a && !ts.isSpreadElement(a) && !args.slice(0, i).some(ts.isSpreadElement)) return { expr: a, ctx: c.parent }
        if (!a && param.initializer) return { expr: param.initializer, ctx: c }
        if (!a && c.call && !args.some(ts.isSpreadElement) && (param.questionToken)) return { expr: null, ctx: c.parent, missing: true }
        return null
      }
      c = c.parent ?? null
      // a closure's definition context can be deeper than its call chain
    }
    c = ctx
    while (c) { if (c.defCtx) { const r = this.argFor(param, c.defCtx); if (r) return r } c = c.parent }
    return null
  }
  returnExprs(fn) {
    if (fn._rets) return fn._rets
    const out = []
    if (ts.isArrowFunction(fn) && !ts.isBlock(fn.body)) out.push(fn.body)
    else walkOwn(fn, n => { if (ts.isReturnStatement(n) && n.expression) out.push(n.expression) })
    return (fn._rets = out)
  }
  // ── call sites ────────────────────────────────────────────────────────
  _buildCallSites() {
    if (this._callSites) return this._callSites
    const m = new Map()
    for (const call of [...this.calls, ...this.news]) {
      for (const t of this.resolveCall(call, null, { allCallers: false })) {
        const a = m.get(t.fn) ?? []
        a.push(call); m.set(t.fn, a)
      }
    }
    return (this._callSites = m)
  }
  callSitesOf(fn) { return this._buildCallSites().get(fn) ?? [] }
  // ── misc ──────────────────────────────────────────────────────────────
  isExported(decl) {
    let d = decl
    if (ts.isArrowFunction(d) || ts.isFunctionExpression(d)) d = d.parent?.parent?.parent ?? d
    if (hasMod(d, K.ExportKeyword)) return true
    return false
  }
  publicMethods(cls) {
    return cls.members.filter(m => (ts.isMethodDeclaration(m) || ts.isGetAccessorDeclaration(m)) && m.body && !hasMod(m, K.PrivateKeyword) && !hasMod(m, K.ProtectedKeyword) && !(m.name && ts.isPrivateIdentifier(m.name)))
  }
  text(n, max = 90) { const t = n.getText().replace(/\s+/g, ' '); return t.length > max ? t.slice(0, max) + '…' : t }
}
