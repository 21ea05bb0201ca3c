// Platform crypto vocabulary: SubtleCrypto calls, random draws, encodings.
import { ts, strip, stripAwait, isFnLike, origins, mkCtx, K } from './common.mjs'

/** Method name of a SubtleCrypto call, or null. */
export function subtle(w, call) {
  if (!call || !ts.isCallExpression(call)) return null
  if (call._subtle !== undefined) return call._subtle
  const c = strip(call.expression)
  let r = null
  if (ts.isPropertyAccessExpression(c)) {
    const d = w.checker.getResolvedSignature(call)?.declaration
    const own = d ? w.ownerName(d) : null
    if (own === 'SubtleCrypto') r = c.name.text
    else {
      const m = w.memberName(c)
      if (m && m.startsWith('SubtleCrypto.')) r = m.slice(13)
    }
  }
  return (call._subtle = r)
}
/** crypto.getRandomValues(...) */
export function isDraw(w, n) {
  if (!n || !ts.isCallExpression(n)) return false
  const c = strip(n.expression)
  return ts.isPropertyAccessExpression(c) && c.name.text === 'getRandomValues' && /^(Crypto|webcrypto)\./.test((w.memberName(c) ?? '')) ||
    ts.isPropertyAccessExpression(c) && c.name.text === 'getRandomValues' && /crypto$/i.test(strip(c.expression).getText())
}
/** Value of a named property of an algorithm argument: {expr, ctx} */
export function algProp(w, I, arg, ctx, name) {
  const r = I.deref(arg, ctx)
  if (r.path.length) return null
  const e = r.expr
  if (ts.isObjectLiteralExpression(e)) {
    for (let i = e.properties.length - 1; i >= 0; i--) {
      const p = e.properties[i]
      if (ts.isSpreadAssignment(p)) {
        const s = I.deref(p.expression, r.ctx)
        if (!s.path.length && ts.isObjectLiteralExpression(s.expr)) { const v = algProp(w, I, s.expr, s.ctx, name); if (v) return v }
        continue
      }
      const nm = p.name && (p.name.text ?? p.name.getText())
      if (nm !== name) continue
      return { expr: ts.isPropertyAssignment(p) ? p.initializer : p.name, ctx: r.ctx }
    }
  }
  return null
}
export function algName(w, I, arg, ctx) {
  const v = I.constEval(arg, ctx)
  if (v && v.vals.length === 1 && typeof v.vals[0] === 'string') return v.vals[0]
  const p = algProp(w, I, arg, ctx, 'name')
  const n = p && I.constEval(p.expr, p.ctx)
  return n && n.vals.length === 1 ? n.vals[0] : null
}
const BYTES = /^(Uint8Array|ArrayBuffer|BufferSource|Buffer|string|number\[\])/
/** Encoders: one byte-ish argument in, string or bytes out. Returns the operand to continue with. */
export function encodingThrough(w) {
  return (e, ctx) => {
    if (ts.isNewExpression(e) && /^(Uint8Array|Blob|Buffer)$/.test(strip(e.expression).getText()) && e.arguments?.length >= 1) {
      const t = w.checker.typeToString(w.checker.getTypeAtLocation(e.arguments[0]))
      if (BYTES.test(t)) return [e.arguments[0]]
    }
    if (ts.isCallExpression(e)) {
      const c = strip(e.expression)
      if (ts.isPropertyAccessExpression(c) && ['slice', 'subarray', 'toString', 'buffer'].includes(c.name.text)) {
        const t = w.checker.typeToString(w.checker.getTypeAtLocation(c.expression))
        if (BYTES.test(t)) return [c.expression]
      }
      if (ts.isPropertyAccessExpression(c) && c.name.text === 'from' && /^(Uint8Array|Buffer|Array)$/.test(c.expression.getText()) && e.arguments.length) return [e.arguments[0]]
      if (e.arguments.length >= 1 && e.arguments.length <= 2 && !subtle(w, e)) {
        const rt = w.checker.typeToString(w.checker.getTypeAtLocation(e))
        const at = w.checker.typeToString(w.checker.getTypeAtLocation(e.arguments[0]))
        const tg = w.resolveCall(e, ctx)
        if (tg.length && /^(string|Uint8Array.*|ArrayBuffer)$/.test(rt) && /^(Uint8Array.*|ArrayBuffer|string|BufferSource)( \| (Uint8Array.*|ArrayBuffer))?$/.test(at)
          && tg.every(t => isEncoder(w, t.fn))) return [e.arguments[0]]
      }
    }
    if (ts.isPropertyAccessExpression(e) && e.name.text === 'buffer') {
      const t = w.checker.typeToString(w.checker.getTypeAtLocation(e.expression))
      if (BYTES.test(t)) return [e.expression]
    }
    return null
  }
}
/** A repo function that only re-encodes its argument (no crypto, no randomness, no store, no await). */
export function isEncoder(w, fn) {
  if (fn._enc !== undefined) return fn._enc
  let ok = true
  let enc = false
  const rec = n => {
    if (ts.isAwaitExpression(n)) ok = false
    if (ts.isCallExpression(n)) {
      if (subtle(w, n) || isDraw(w, n)) ok = false
      const c = strip(n.expression)
      const nm = ts.isPropertyAccessExpression(c) ? c.name.text : c.getText()
      if (/^(btoa|atob|fromCharCode|charCodeAt|toString|from|encode|decode)$/.test(nm)) enc = true
    }
    ts.forEachChild(n, rec)
  }
  rec(fn.body)
  return (fn._enc = ok && enc)
}
/** All identifiers (by declaration) a value depends on, following every operand. */
export function dependsOnParams(w, expr, ctx, stopFn) {
  const params = new Set()
  const seen = new Set()
  const go = (e, c, d) => {
    if (!e || d > 40) return
    const visit = n => {
      if (ts.isIdentifier(n) && !(n.parent && ts.isPropertyAccessExpression(n.parent) && n.parent.name === n)) {
        const decl = w.declOf(n)
        if (!decl || seen.has(decl)) return
        if (ts.isParameter(decl) || ts.isVariableDeclaration(decl) || ts.isBindingElement(decl)) {
          if (ts.isParameter(decl)) {
            const a = w.argFor(decl, c)
            if (a?.expr) { go(a.expr, a.ctx, d + 1); return }
            params.add(decl); return
          }
          seen.add(decl)
          const vd = ts.isVariableDeclaration(decl) ? decl : (function up(x) { while (x && !ts.isVariableDeclaration(x) && !ts.isParameter(x)) x = x.parent; return x })(decl)
          if (vd && ts.isParameter(vd)) { const a = w.argFor(vd, c); if (a?.expr) go(a.expr, a.ctx, d + 1); else params.add(vd); return }
          if (vd?.initializer) go(vd.initializer, c, d + 1)
          const s = w.sym(n)
          if (s) for (const a of w.assignmentsOf(s)) go(a.value, c, d + 1)
        }
        return
      }
      if (ts.isCallExpression(n)) {
        const tgts = w.resolveCall(n, c)
        const inner = tgts.length > 0 && tgts.every(t => !isEncoder(w, t.fn) && w.returnExprs(t.fn).length)
        for (const t of tgts) {
          let k = c, rec = false, depth = 0
          while (k) { if (k.fn === t.fn) rec = true; k = k.parent; depth++ }
          if (rec || depth > 8) continue
          const nc = mkCtx(t.fn, n, c, t.ctx)
          for (const r of w.returnExprs(t.fn)) go(r, nc, d + 1)
        }
        if (inner) return
      }
      if (isFnLike(n)) return
      ts.forEachChild(n, visit)
    }
    visit(e)
  }
  go(expr, ctx, 0)
  return params
}
export function ctxCalls(ctx) { const o = []; let c = ctx; while (c) { if (c.call) o.push(c.call); c = c.parent } return o }
