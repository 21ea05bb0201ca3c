// Backward value provenance: where can the value of an expression come from?
import { ts, strip, stripAwait, isFnLike, enclosingFn, mkCtx } from './world.mjs'
const K = ts.SyntaxKind

/**
 * Leaves of the backward slice of `expr`.
 * opts.stop(node, ctx, path) -> true   make the node a leaf
 * opts.through(node, ctx) -> [expr]    keep going through these operands
 * opts.callers                          expand parameters to all call sites
 * opts.fields                           expand class fields to their assignments
 * opts.prune(node) -> true              the selection point cannot execute: drop that way
 * Each leaf: {expr, ctx, path, chain}; chain lists the selection points
 * (assignments, branches, returns, arguments) the value passed through.
 */
/** Assignments after which the variable holds the right side (or what it held before). */
const ASSIGNS = new Set([K.EqualsToken, K.QuestionQuestionEqualsToken, K.BarBarEqualsToken, K.AmpersandAmpersandEqualsToken])
export function origins(w, expr, ctx, opts = {}) {
  const out = []
  const seen = new Set()
  const leaf = (e, c, path, chain, why) => out.push({ expr: e, ctx: c, path, chain, why })
  const go = (e, c, path, chain, depth) => {
    if (!e) return
    if (opts.prune && (opts.prune(e) || (chain.length && opts.prune(chain[chain.length - 1])))) return
    e = stripAwait(e)
    if (opts.prune?.(e)) return
    const key = `${e.getSourceFile().fileName}:${e.pos}:${e.end}:${path.join('.')}:${ctxId(c)}`
    if (seen.has(key)) return
    seen.add(key)
    if (depth > 60) return leaf(e, c, path, chain, 'depth')
    chain = [...chain, e]
    if (opts.stop?.(e, c, path)) return leaf(e, c, path, chain, 'stop')
    const thr = opts.through?.(e, c, path)
    if (thr) { for (const x of thr) go(x, c, [], chain, depth + 1); return }
    if (ts.isConditionalExpression(e)) { go(e.whenTrue, c, path, chain, depth + 1); go(e.whenFalse, c, path, chain, depth + 1); return }
    if (ts.isBinaryExpression(e)) {
      const op = e.operatorToken.kind
      if (op === K.QuestionQuestionToken || op === K.BarBarToken) { go(e.left, c, path, chain, depth + 1); go(e.right, c, path, chain, depth + 1); return }
      if (op === K.AmpersandAmpersandToken) { go(e.right, c, path, chain, depth + 1); return }
      if (op === K.EqualsToken) { go(e.right, c, path, chain, depth + 1); return }
      if (op === K.CommaToken) { go(e.right, c, path, chain, depth + 1); return }
      return leaf(e, c, path, chain, 'binary')
    }
    if (ts.isIdentifier(e)) {
      if (e.text === 'undefined') return leaf(e, c, path, chain, 'undefined')
      const s = w.sym(e)
      const d = s?.valueDeclaration ?? s?.declarations?.[0]
      if (!d) return leaf(e, c, path, chain, 'unresolved')
      if (ts.isVariableDeclaration(d)) {
        const fo = d.parent.parent
        if (ts.isForOfStatement(fo)) { go(fo.expression, c, ['*', ...path], chain, depth + 1); return }
        if (ts.isForInStatement(fo)) return leaf(e, c, path, chain, 'forin')
        if (ts.isCatchClause(d.parent)) return leaf(e, c, path, chain, 'catch')
        let any = false
        const allow = opts.defs?.get(e)
        const use = allow && enclosingFn(e)
        const live = (n, v) => !allow || allow.has(n) || enclosingFn(v) !== use
        const muts = path[0] === '*' || path[0] === '#' ? w.mutationsOf(s) : []
        for (const m of muts) {
          any = true
          if (m.how === 'spread') go(m.value, c, path, [...chain, m.call], depth + 1)
          else if (m.how !== 'key') go(m.value, c, path.slice(1), [...chain, m.call], depth + 1)
        }
        if (d.initializer && muts.length && /^(\[\]|new (Map|Set|WeakMap)(<.*>)?\(\))$/s.test(strip(d.initializer).getText())) return
        if (d.initializer) { any = true; if (live(d, d)) go(d.initializer, c, path, [...chain, d], depth + 1) }
        for (const a of w.assignmentsOf(s)) {
          any = true
          if (!live(a.node, a.node)) continue
          if (ts.isBinaryExpression(a.node) && ASSIGNS.has(a.node.operatorToken.kind)) go(a.value, c, path, [...chain, a.node], depth + 1)
          else if (ts.isBinaryExpression(a.node)) { if (opts.compound) go(a.value, c, path, [...chain, a.node], depth + 1); else leaf(a.node, c, path, [...chain, a.node], 'compound') }
          else leaf(a.node, c, path, [...chain, a.node], 'update')
        }
        if (!any) leaf(e, c, path, chain, 'uninit')
        return
      }
      if (ts.isBindingElement(d)) {
        const names = []
        let b = d
        let host
        let rest = !!d.dotDotDotToken
        for (;;) {
          if (!b.dotDotDotToken) names.unshift(ts.isObjectBindingPattern(b.parent) ? ((b.propertyName ?? b.name).text ?? (b.propertyName ?? b.name).getText()) : String(b.parent.elements.indexOf(b)))
          if (b.initializer) go(b.initializer, c, path, chain, depth + 1)
          host = b.parent.parent
          if (ts.isBindingElement(host)) { b = host; continue }
          break
        }
        const p = [...names, ...path]
        if (ts.isVariableDeclaration(host)) {
          const fo = host.parent.parent
          if (ts.isForOfStatement(fo)) { go(fo.expression, c, ['*', ...p], chain, depth + 1); return }
          if (host.initializer) { go(host.initializer, c, p, [...chain, host], depth + 1); return }
        }
        if (ts.isParameter(host)) { param(host, c, p, chain, depth, e); return }
        return leaf(e, c, path, chain, 'binding')
      }
      if (ts.isParameter(d)) { param(d, c, path, chain, depth, e); return }
      return leaf(e, c, path, chain, 'decl')
    }
    if (ts.isPropertyAccessExpression(e)) {
      const s = w.sym(e.name)
      const d = s?.valueDeclaration
      if (opts.fields !== false && d && ts.isPropertyDeclaration(d) && w.isRepoFile(d.getSourceFile())) {
        let any = false
        const muts = path[0] === '*' || path[0] === '#' ? w.mutationsOf(s) : []
        for (const m of muts) { if (m.how === 'spread') go(m.value, null, path, [...chain, m.call], depth + 1); else if (m.how !== 'key') { any = true; go(m.value, null, path.slice(1), [...chain, m.call], depth + 1) } }
        if (any && d.initializer && /^(\[\]|new (Map|Set|WeakMap)(<.*>)?\(\))$/s.test(strip(d.initializer).getText())) return
        if (d.initializer) { any = true; go(d.initializer, null, path, [...chain, d], depth + 1) }
        for (const a of w.assignmentsOf(s)) {
          any = true
          if (ts.isBinaryExpression(a.node) && ASSIGNS.has(a.node.operatorToken.kind)) go(a.value, null, path, [...chain, a.node], depth + 1)
          else leaf(a.node, null, path, [...chain, a.node], 'update')
        }
        if (any) return
        return leaf(e, c, path, chain, 'field')
      }
      if (opts.fields !== false && d && ts.isParameter(d) && ts.isConstructorDeclaration(d.parent)) { param(d, null, path, chain, depth, e); return }
      if (d && ts.isGetAccessorDeclaration(d) && d.body && w.isRepoFile(d.getSourceFile())) {
        for (const r of w.returnExprs(d)) go(r, mkCtx(d, null, c), path, [...chain, r], depth + 1)
        return
      }
      go(e.expression, c, [e.name.text, ...path], chain, depth + 1)
      return
    }
    if (ts.isElementAccessExpression(e)) {
      const k = strip(e.argumentExpression)
      const nm = ts.isStringLiteral(k) || ts.isNumericLiteral(k) ? k.text : '*'
      go(e.expression, c, [nm, ...path], chain, depth + 1)
      return
    }
    if (ts.isObjectLiteralExpression(e) && path.length) {
      const nm = path[0]
      let hit = false
      for (let i = e.properties.length - 1; i >= 0; i--) {
        const p = e.properties[i]
        if (ts.isSpreadAssignment(p)) { go(p.expression, c, path, [...chain, p], depth + 1); hit = true; continue }
        const pn = p.name && (p.name.text ?? p.name.getText())
        if (pn === nm || nm === '*' || (p.name && ts.isComputedPropertyName(p.name))) {
          hit = true
          if (ts.isPropertyAssignment(p)) go(p.initializer, c, path.slice(1), [...chain, p], depth + 1)
          else if (ts.isShorthandPropertyAssignment(p)) go(p.name, c, path.slice(1), [...chain, p], depth + 1)
          else leaf(p, c, path.slice(1), chain, 'method')
          if (pn === nm) break
        }
      }
      if (!hit) leaf(e, c, path, chain, 'absent')
      return
    }
    if (ts.isArrayLiteralExpression(e) && path.length) {
      const i = path[0] === '*' ? -1 : Number(path[0])
      for (const [j, el] of e.elements.entries()) {
        if (ts.isSpreadElement(el)) go(el.expression, c, ['*', ...path.slice(1)], chain, depth + 1)
        else if (i < 0 || i === j) go(el, c, path.slice(1), chain, depth + 1)
      }
      return
    }
    if (ts.isCallExpression(e)) {
      const callee = strip(e.expression)
      // collection literals flowing through common array helpers
      if (ts.isPropertyAccessExpression(callee) && ['slice', 'reverse', 'filter', 'sort', 'concat', 'values', 'flat'].includes(callee.name.text) && path[0] === '*') { go(callee.expression, c, path, chain, depth + 1); return }
      if (ts.isPropertyAccessExpression(callee) && (callee.name.text === 'map' || callee.name.text === 'flatMap') && path[0] === '*') {
        const cb = strip(e.arguments[0])
        if (cb && isFnLike(cb)) { for (const r of w.returnExprs(cb)) go(r, mkCtx(cb, null, c, c), path.slice(1), [...chain, r], depth + 1); return }
      }
      // value stored in a map
      if (ts.isPropertyAccessExpression(callee) && callee.name.text === 'get' && /^(Weak)?Map$/.test(w.typeName(callee.expression))) {
        const r = strip(callee.expression)
        const ms = ts.isIdentifier(r) ? w.sym(r) : ts.isPropertyAccessExpression(r) ? w.sym(r.name) : null
        if (ms && w.mutationsOf(ms).some(m => m.how === 'value')) { for (const m of w.mutationsOf(ms)) if (m.how === 'value') go(m.value, m.call && enclosingFn(m.call) === enclosingFn(e) ? c : null, path, [...chain, m.call], depth + 1); return }
      }
      if (/^Promise\.(all|resolve)$/.test(callee.getText())) { go(e.arguments[0], c, path, chain, depth + 1); return }
      if (/^Object\.freeze$/.test(callee.getText())) { go(e.arguments[0], c, path, chain, depth + 1); return }
      if (/^Object\.assign$/.test(callee.getText()) && path.length && !e.arguments.some(ts.isSpreadElement)) { for (const a of [...e.arguments].reverse()) go(a, c, path, [...chain, a], depth + 1); return }
      const ts_ = w.resolveCall(e, c, { opaqueIface: opts.opaqueIface ?? new Set(['NoydbStore']) })
      if (ts_.length) {
        for (const t of ts_) {
          let k = c, rec = false, n = 0
          while (k) { if (k.fn === t.fn && k.call === e) rec = true; k = k.parent; n++ }
          if (rec || n > 12) { leaf(e, c, path, chain, 'recursion'); continue }
          const nctx = mkCtx(t.fn, e, c, t.ctx)
          const rs = w.returnExprs(t.fn)
          if (!rs.length) leaf(e, c, path, chain, 'void')
          for (const r of rs) go(r, nctx, path, [...chain, r], depth + 1)
        }
        return
      }
      return leaf(e, c, path, chain, 'call')
    }
    return leaf(e, c, path, chain, ts.SyntaxKind[e.kind])
  }
  const param = (d, c, path, chain, depth, e) => {
    const a = w.argFor(d, c)
    if (a) {
      if (a.missing) return leaf(e, c, path, chain, 'missing')
      go(a.expr, a.ctx, path, [...chain, a.expr], depth + 1)
      return
    }
    if (opts.callers) {
      const sites = w.callSitesOf(d.parent)
      const i = d.parent.parameters.indexOf(d)
      const exported = isFnLike(d.parent) && opts.isRoot?.(d.parent)
      if (sites.length && !exported) {
        for (const s of sites) {
          const arg = s.arguments?.[i]
          if (arg && !ts.isSpreadElement(arg)) go(arg, null, path, [...chain, arg], depth + 1)
          else if (!arg && d.initializer) go(d.initializer, null, path, chain, depth + 1)
          else if (!arg) leaf(e, c, path, chain, 'missing')
          else leaf(e, c, path, chain, 'spread')
        }
        return
      }
    }
    // callback parameter of an array helper: element of the receiver
    const fn = d.parent
    if ((ts.isArrowFunction(fn) || ts.isFunctionExpression(fn)) && fn.parent && ts.isCallExpression(fn.parent) && fn.parameters.indexOf(d) === 0) {
      const cl = strip(fn.parent.expression)
      if (ts.isPropertyAccessExpression(cl) && ['map', 'forEach', 'filter', 'some', 'every', 'find', 'flatMap', 'findIndex'].includes(cl.name.text)) { go(cl.expression, c, ['*', ...path], chain, depth + 1); return }
      if (ts.isPropertyAccessExpression(cl) && cl.name.text === 'then') { go(cl.expression, c, path, chain, depth + 1); return }
    }
    leaf(e, c, path, chain, 'param')
  }
  go(expr, ctx, opts.path ?? [], [], 0)
  return out
}
let ids = new WeakMap(), next = 1
export function ctxId(c) { if (!c) return 0; let i = ids.get(c); if (!i) { i = next++; ids.set(c, i) } return i }
