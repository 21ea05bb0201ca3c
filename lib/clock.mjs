// A fixed clock for abstract evaluation: "now" and chosen instants become constants,
// whatever representation (milliseconds, seconds, Date, ISO text) the code uses.
import { ts, strip, stripAwait, K } from './common.mjs'

const UNIT = { s: 1000, ms: 1 }
/**
 * Assumption hook making every reading of the current time equal `now` (ms) and every
 * expression matched by `instant(e, ctx, I)` (-> ms | undefined) equal that instant.
 * Numbers are milliseconds unless `seconds(e)` says the value is in seconds.
 */
export function clock(w, { now, instant, seconds }) {
  const isDate = e => w.checker.typeToString(w.checker.getTypeAtLocation(e)) === 'Date'
  const at = (e, ctx, I) => { // instant denoted by a Date-typed or instant expression
    e = stripAwait(e)
    if (ts.isNewExpression(e) && strip(e.expression).getText() === 'Date') {
      if (!e.arguments?.length) return now
      if (e.arguments.length === 1) return num(e.arguments[0], ctx, I)
    }
    const i = instant?.(e, ctx, I)
    if (i !== undefined) return i
    if (ts.isIdentifier(e) && isDate(e)) {
      const d = w.declOf(e)
      if (d && ts.isVariableDeclaration(d) && d.initializer) return at(d.initializer, ctx, I)
      if (d && ts.isParameter(d)) {
        const a = w.argFor(d, ctx)
        if (a?.expr) return at(a.expr, a.ctx, I)
        if (d.initializer) return at(d.initializer, ctx, I)
        return /now/i.test(d.name.getText()) ? now : undefined
      }
    }
    if ((ts.isPropertyAccessExpression(e) || ts.isBinaryExpression(e)) && isDate(e)) {
      if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.QuestionQuestionToken) return at(e.left, ctx, I) ?? at(e.right, ctx, I)
      if (ts.isPropertyAccessExpression(e) && e.name.text === 'now') return now
    }
    return undefined
  }
  const num = (e, ctx, I) => { // numeric or ISO value as ms
    const a = at(e, ctx, I)
    if (a !== undefined) return a
    const v = I.constEval(e, ctx)
    if (v?.vals.length === 1) { const x = v.vals[0]; if (typeof x === 'number') return x; if (typeof x === 'string') { const p = Date.parse(x); return Number.isNaN(p) ? undefined : p } }
    return undefined
  }
  return (e, ctx, I) => {
    if (ts.isCallExpression(e)) {
      const c = strip(e.expression)
      const t = c.getText()
      if (/^(Date|performance)\.now$/.test(t)) return { vals: [now] }
      if (/^Date\.parse$/.test(t) && e.arguments.length === 1) { const n = num(e.arguments[0], ctx, I); return n === undefined ? undefined : { vals: [n] } }
      if (ts.isPropertyAccessExpression(c) && /^(getTime|valueOf|toISOString)$/.test(c.name.text)) {
        const a = at(c.expression, ctx, I)
        if (a !== undefined) return { vals: [c.name.text === 'toISOString' ? new Date(a).toISOString() : a] }
      }
      return undefined
    }
    if (ts.isNewExpression(e) && strip(e.expression).getText() === 'Date') { const a = at(e, ctx, I); return a === undefined ? undefined : { vals: [a] } }
    const i = instant?.(e, ctx, I)
    if (i !== undefined) {
      const ty = w.checker.typeToString(w.checker.getTypeAtLocation(e)).replace(/ \| (undefined|null)/g, '')
      if (/number/.test(ty)) return { vals: [seconds?.(e) ? i / UNIT.s : i] }
      if (/string/.test(ty)) return { vals: [new Date(i).toISOString()] }
      return { vals: [i] }
    }
    if (ts.isIdentifier(e) && isDate(e)) { const a = at(e, ctx, I); if (a !== undefined) return { vals: [a] } }
    return undefined
  }
}
