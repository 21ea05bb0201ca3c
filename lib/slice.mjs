// Full backward data slice: every call, parameter and literal a value may be built from,
// including values accumulated by mutation (push/set/element writes, filled buffers).
import { ts, strip, stripAwait, isFnLike, walkNodes, mkCtx, K } from './common.mjs'

export const mutationsOf = (w, sym) => w.mutationsOf(sym).map(m => m.value)

export function slice(w, expr, ctx, opts = {}) {
  const out = { calls: new Map(), params: new Set(), literals: [], props: [], news: [] }
  const seen = new Map()
  const go = (e, c, d) => {
    if (!e || d > 60) return
    const visit = n => {
      if (ts.isTypeNode?.(n)) return
      if (isFnLike(n)) { for (const r of w.returnExprs(n)) go(r, c, d + 1); return }
      if (opts.stop?.(n, c)) { out.calls.set(n, c); return }
      if (ts.isStringLiteral(n) || ts.isNumericLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) { out.literals.push(n); return }
      if (ts.isPropertyAccessExpression(n)) {
        out.props.push({ node: n, ctx: c })
        const s = w.sym(n.name)
        const decl = s?.valueDeclaration
        if (decl && ts.isPropertyDeclaration(decl) && w.isRepoFile(decl.getSourceFile()) && opts.fields !== false) {
          if (seen.has(decl)) return
          seen.set(decl, 1)
          if (decl.initializer) go(decl.initializer, null, d + 1)
          for (const a of w.assignmentsOf(s)) go(a.value, null, d + 1)
          for (const a of mutationsOf(w, s)) go(a, null, d + 1)
          return
        }
        visit(n.expression)
        return
      }
      if (ts.isIdentifier(n)) {
        const s = w.sym(n)
        const decl = s?.valueDeclaration
        if (!decl) return
        if (ts.isParameter(decl)) { param(decl, c, d); return }
        if (!(ts.isVariableDeclaration(decl) || ts.isBindingElement(decl))) return
        const k = seen.get(decl)
        if (k && k.includes?.(c)) return
        seen.set(decl, [...(k ?? []), c])
        if (seen.get(decl).length > 6) return
        let vd = decl
        while (vd && !ts.isVariableDeclaration(vd) && !ts.isParameter(vd)) vd = vd.parent
        if (vd && ts.isParameter(vd)) { param(vd, c, d); return }
        if (ts.isForOfStatement(vd.parent.parent)) go(vd.parent.parent.expression, c, d + 1)
        if (vd.initializer) go(vd.initializer, c, d + 1)
        for (const a of w.assignmentsOf(s)) go(a.value, c, d + 1)
        for (const a of mutationsOf(w, s)) go(a, c, d + 1)
        return
      }
      if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
        if (ts.isCallExpression(n)) out.calls.set(n, c); else out.news.push(n)
        const tg = w.resolveCall(n, c)
        let inner = false
        if (ts.isCallExpression(n)) for (const t of tg) {
          let k = c, rec = false, depth = 0
          while (k) { if (k.fn === t.fn) rec = true; k = k.parent; depth++ }
          if (rec || depth > 10) continue
          const rs = w.returnExprs(t.fn)
          if (!rs.length) continue
          inner = true
          const nc = mkCtx(t.fn, n, c, t.ctx)
          for (const r of rs) go(r, nc, d + 1)
        }
        if (inner) { // receiver still matters
          const cc = strip(n.expression)
          if (ts.isPropertyAccessExpression(cc) && opts.receivers) visit(cc.expression)
          return
        }
      }
      ts.forEachChild(n, visit)
    }
    visit(e)
  }
  const param = (decl, c, d) => {
    const a = w.argFor(decl, c)
    if (a?.expr) { go(a.expr, a.ctx, d + 1); return }
    if (opts.callers) {
      const key = [decl, 'callers']
      if (seen.has(decl)) return
      seen.set(decl, [null])
      const sites = w.callSitesOf(decl.parent)
      const i = decl.parent.parameters?.indexOf(decl)
      if (sites.length) for (const s of sites) { const arg = s.arguments?.[i]; if (arg) go(arg, null, d + 1) }
      out.params.add(decl)
      return
    }
    out.params.add(decl)
  }
  go(expr, ctx, 0)
  return out
}
/** Contexts for a function: none, plus one per chain of callers up to a depth. */
export function callerContexts(w, fn, depth = 3, seen = new Set()) {
  if (seen.has(fn) || depth === 0) return [mkCtx(fn)]
  const sites = w.callSitesOf(fn)
  if (!sites.length) return [mkCtx(fn)]
  const out = []
  for (const s of sites) {
    let f = s.parent
    while (f && !isFnLike(f)) f = f.parent
    const parents = f ? callerContexts(w, f, depth - 1, new Set([...seen, fn])) : [null]
    for (const p of parents.slice(0, 12)) out.push(mkCtx(fn, s, p))
  }
  return out
}
/** Constant values of an expression in any calling context; null when unknown in some context. */
export function constVia(w, I, expr, fn) {
  const v = I.constEval(expr, fn ? mkCtx(fn) : null)
  if (v) return v.vals
  if (!fn) return null
  const out = []
  for (const c of callerContexts(w, fn)) { const x = I.constEval(expr, c); if (!x) return null; out.push(...x.vals) }
  return out.length ? [...new Set(out)] : null
}
