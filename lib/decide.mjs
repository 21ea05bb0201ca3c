// Decision tables: the outcome of a function when some of its inputs are fixed.
import { ts, strip, Interp, thrownClass, storeOp, K } from './common.mjs'

/**
 * Interprets `fn` with parameters fixed by position (`args`), every value of a
 * named type fixed (`types`), and further assumptions (`assume`).
 * Result: { vals, unknown, returns, throws:Set<class>, events:[...] }.
 */
export function outcome(w, fn, { args = [], types = {}, assume, isEvent, onEvent, maxDepth = 7, rel }) {
  const throws = new Set(), events = []
  const pix = new Map(fn.parameters.map((p, i) => [p, i]))
  const I = new Interp(w, {
    isEvent: n => ts.isThrowStatement(n) || !!isEvent?.(n),
    assume(e, ctx, I) {
      const a = assume?.(e, ctx, I)
      if (a) return a
      if (ts.isIdentifier(e)) {
        const d = w.declOf(e)
        if (d && pix.has(d) && pix.get(d) in args) return { vals: [args[pix.get(d)]] }
      }
      if (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e)) { const t = w.typeName(e); if (t in types && !(ts.isPropertyAccessExpression(e.parent) && e.parent.name === e)) return { vals: [types[t]] } }
      return undefined
    },
    onThrow(s, st, ctx) { throws.add(thrownClass(w, s) ?? '?') },
    onCall(c, st, ctx, I) { return onEvent?.(c, st, ctx, I, events) },
  }, { maxDepth })
  I.collectVals = true
  if (rel?.set) I.relevant = rel.set
  I._computeRelevant()
  if (rel) rel.set = I.relevant
  const f = I.run(fn)
  return { vals: f.vals, unknown: f.valUnknown, returns: !!(f.normal || f.yields), throws, events, f, I }
}
