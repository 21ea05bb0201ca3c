// Forward, context-sensitive value flow: where can a value go?
import { ts, strip, isFnLike, enclosingFn, mkCtx, walkNodes, K } from './common.mjs'

/** Identifier nodes that refer to a symbol. */
export function refsOf(w, sym) {
  if (!w._byName) {
    const m = w._byName = new Map()
    for (const sf of w.sourceFiles) walkNodes(sf, n => { if (ts.isIdentifier(n)) { const a = m.get(n.text) ?? []; a.push(n); m.set(n.text, a) } })
  }
  const c = w._refs ??= new Map()
  if (c.has(sym)) return c.get(sym)
  const out = (w._byName.get(sym.name) ?? []).filter(n => w.sym(n) === sym && n !== sym.valueDeclaration?.name)
  c.set(sym, out)
  return out
}
const TRANSPARENT = new Set([K.ParenthesizedExpression, K.AsExpression, K.NonNullExpression, K.SatisfiesExpression, K.AwaitExpression, K.SpreadElement, K.TemplateSpan, K.TemplateExpression, K.ArrayLiteralExpression, K.SpreadAssignment])
const HOLDERS = new Set(['push', 'set', 'add', 'unshift', 'append', 'fill', 'enqueue'])

/**
 * seeds: [{expr, ctx}]
 * h.call(call, idx, ctx, item) -> 'stop' | 'result' | 'enter' | {sink: text}   (idx -1 = receiver)
 * h.ret(fn, ctx, item) -> 'stop' | {sink: text} | undefined                    (value leaves a root context)
 * h.member(access, ctx) -> false to drop (e.g. .length)
 * Returns sinks [{node, ctx, what, path}].
 */
export function taint(w, seeds, h) {
  const seen = new Set()
  const sinks = []
  const work = []
  const add = (node, ctx, from, note) => {
    const k = seen.has(node) && ctxSeen.get(node)
    if (k) { if (k.has(ctx)) return; if (k.size > 24) return; k.add(ctx) } else { seen.add(node); ctxSeen.set(node, new Set([ctx])) }
    work.push({ node, ctx, from, note })
  }
  const ctxSeen = new Map()
  const pathOf = it => { const o = []; for (let i = it; i; i = i.from) o.push(`${w.text(i.node, 50)} @ ${w.loc(i.node)}`); return o }
  const sink = (it, node, what) => sinks.push({ node, ctx: it.ctx, what, path: pathOf(it) })
  const symUses = (sym, ctx, it, global) => { for (const r of refsOf(w, sym)) if (!isWriteTarget(r)) add(r, global ? null : ctx, it) }
  const isWriteTarget = n => { const p = n.parent; return (ts.isBinaryExpression(p) && p.left === n && p.operatorToken.kind === K.EqualsToken) || (ts.isVariableDeclaration(p) && p.name === n) || (ts.isParameter(p) && p.name === n) || (ts.isBindingElement(p) && p.name === n) || ts.isPropertyDeclaration(p) && p.name === n || ts.isPropertySignature(p) }
  const intoPattern = (pat, ctx, it) => { for (const el of pat.elements) if (!ts.isOmittedExpression(el)) { if (ts.isIdentifier(el.name)) { const s = w.sym(el.name); if (s && el._skip !== true) symUses(s, ctx, it) } else intoPattern(el.name, ctx, it) } }
  const intoTarget = (l, ctx, it) => {
    l = strip(l)
    if (ts.isIdentifier(l)) { const s = w.sym(l); if (s) symUses(s, ctx, it); return }
    if (ts.isPropertyAccessExpression(l)) {
      const s = w.sym(l.name)
      const d = s?.valueDeclaration
      if (d && (ts.isPropertyDeclaration(d) || (ts.isParameter(d) && ts.isConstructorDeclaration(d.parent)))) { symUses(s, null, it, true); return }
      intoTarget(l.expression, ctx, it) // the object holding it
      return
    }
    if (ts.isElementAccessExpression(l)) intoTarget(l.expression, ctx, it)
  }
  for (const s of seeds) add(s.expr, s.ctx ?? null, null)
  let n = 0
  while (work.length && n++ < 60000) {
    const it = work.pop()
    const { node, ctx } = it
    const p = node.parent
    if (!p) continue
    if (TRANSPARENT.has(p.kind)) { add(p, ctx, it); continue }
    if (ts.isVariableDeclaration(p) && p.initializer === node) {
      if (ts.isIdentifier(p.name)) { const s = w.sym(p.name); if (s) symUses(s, ctx, it) } else intoPattern(p.name, ctx, it)
    } else if (ts.isBinaryExpression(p)) {
      const op = p.operatorToken.kind
      if (op >= K.FirstAssignment && op <= K.LastAssignment) { if (p.right === node) { intoTarget(p.left, ctx, it); add(p, ctx, it) } }
      else if (op === K.QuestionQuestionToken || op === K.BarBarToken || (op === K.AmpersandAmpersandToken && p.right === node) || op === K.PlusToken || (op === K.CommaToken && p.right === node)) add(p, ctx, it)
      else if ([K.CaretToken, K.AmpersandToken, K.BarToken, K.LessThanLessThanToken, K.GreaterThanGreaterThanToken, K.GreaterThanGreaterThanGreaterThanToken].includes(op)) add(p, ctx, it)
    } else if (ts.isConditionalExpression(p)) { if (p.condition !== node) add(p, ctx, it) }
    else if (ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p)) add(p.parent, ctx, it)
    else if (ts.isPropertyAccessExpression(p) && p.expression === node) {
      const gp = p.parent
      if (ts.isCallExpression(gp) && gp.expression === p) { onCall(gp, -1, it) } else if (h.member?.(p, ctx) !== false) add(p, ctx, it)
    } else if (ts.isPropertyAccessExpression(p) && p.name === node) add(p, ctx, it)
    else if (ts.isElementAccessExpression(p) && p.expression === node) add(p, ctx, it)
    else if (ts.isForOfStatement(p) && p.expression === node) { const d = p.initializer.declarations?.[0]; if (d) { if (ts.isIdentifier(d.name)) { const s = w.sym(d.name); if (s) symUses(s, ctx, it) } else intoPattern(d.name, ctx, it) } }
    else if (ts.isReturnStatement(p) || (ts.isArrowFunction(p) && p.body === node) || ts.isYieldExpression(p)) {
      const fn = ts.isArrowFunction(p) ? p : enclosingFn(p)
      if (fn) onReturn(fn, ctx, it)
    } else if ((ts.isCallExpression(p) || ts.isNewExpression(p)) && p.expression !== node) onCall(p, p.arguments.indexOf(node), it)
    else if (ts.isPropertyDeclaration(p) && p.initializer === node) { const s = w.sym(p.name); if (s) symUses(s, null, it, true) }
    else if (ts.isThrowStatement(p)) { const r = h.throw?.(p, ctx, it); if (r?.sink) sink(it, p, r.sink) }
  }
  function onReturn(fn, ctx, it) {
    // innermost context entry of this function
    let c = ctx
    while (c && c.fn !== fn) c = c.parent
    if (c?.call) { add(c.call, c.parent, it); return }
    const r = h.ret?.(fn, ctx, it)
    if (r === 'stop') return
    if (r?.sink) sink(it, it.node, r.sink)
    if (ts.isArrowFunction(fn) || ts.isFunctionExpression(fn)) {
      // callback: its result becomes part of what the helper returns
      const pc = fn.parent
      if (pc && ts.isCallExpression(pc) && pc.arguments.includes(fn)) { add(pc, ctx, it); return }
      if (pc && ts.isCallExpression(pc) && pc.expression === fn) { add(pc, ctx, it); return }
    }
    for (const s of w.callSitesOf(fn)) if (ts.isCallExpression(s)) add(s, mkCtx(enclosingFn(s) ?? null), it)
  }
  function onCall(call, idx, it) {
    const { ctx } = it
    const r = h.call?.(call, idx, ctx, it)
    if (r === 'stop') return
    if (r === 'result') { add(call, ctx, it); return }
    if (r?.sink) { sink(it, call, r.sink); return }
    const callee = strip(call.expression)
    // containers
    if (idx >= 0 && ts.isPropertyAccessExpression(callee) && HOLDERS.has(callee.name.text) && !w.resolveCall(call, ctx).length) { intoTarget(callee.expression, ctx, it); return }
    const tg = w.resolveCall(call, ctx)
    let entered = false
    for (const t of tg) {
      if (idx < 0) continue
      let k = ctx, depth = 0, rec = false
      while (k) { if (k.fn === t.fn) rec = true; k = k.parent; depth++ }
      if (rec || depth > 9) continue
      entered = true
      const prm = t.fn.parameters[Math.min(idx, t.fn.parameters.length - 1)]
      if (!prm || (idx >= t.fn.parameters.length && !prm.dotDotDotToken)) continue
      const nctx = mkCtx(t.fn, call, ctx, t.ctx)
      if (ts.isIdentifier(prm.name)) {
        const s = w.sym(prm.name)
        if (s) { for (const x of refsOf(w, s)) if (!isWriteTarget(x)) add(x, nctx, it) }
        if (ts.isConstructorDeclaration(t.fn) && prm.modifiers?.length) { const ps = w.checker.getSymbolAtLocation(prm.name); for (const x of w._byName.get(prm.name.text) ?? []) if (x.parent && ts.isPropertyAccessExpression(x.parent) && x.parent.name === x && w.sym(x)?.valueDeclaration === prm) add(x.parent, null, it) }
      } else intoPattern(prm.name, nctx, it)
    }
    if (entered) return
    // method call on a tainted receiver, or unknown function: helpers keep the value
    if (idx < 0) {
      // callback parameters of iteration helpers see the elements
      for (const a of call.arguments) { const f = strip(a); if (isFnLike(f) && f.parameters[0] && ['map', 'forEach', 'filter', 'flatMap', 'some', 'every', 'find', 'reduce', 'then'].includes(callee.name?.text)) for (const prm of f.parameters.slice(0, callee.name.text === 'reduce' ? 2 : 1)) { if (ts.isIdentifier(prm.name)) { const s = w.sym(prm.name); if (s) symUses(s, ctx, it) } else intoPattern(prm.name, ctx, it) } }
      add(call, ctx, it)
      return
    }
    const u = h.unknown?.(call, idx, ctx, it)
    if (u === 'stop') return
    if (u?.sink) { sink(it, call, u.sink); return }
    add(call, ctx, it)
  }
  return { sinks, visited: seen.size, pathOf }
}
