// Symbols that carry a boolean configuration flag: everything the flag's defining
// expression flows into (fields, options properties, parameters, constants).
import { ts, strip, stripAwait, isFnLike, walkNodes, Interp, K } from './common.mjs'

/** isSeed(expr) -> true when the expression computes the flag (e.g. options.encrypt !== false). */
export function flagSymbols(w, isSeed) {
  const set = new Set()
  const key = s => s?.valueDeclaration ?? s?.declarations?.[0] ?? s
  const flags = { has: s => !!s && set.has(key(s)), add: s => set.add(key(s)), get size() { return set.size }, decls: set }
  const isBool = n => { const t = w.checker.getTypeAtLocation(n); const s = w.checker.typeToString(w.checker.getNonNullableType(t)); return s === 'boolean' || s === 'true' || s === 'false' }
  const carries = e => {
    e = stripAwait(e)
    if (!e) return false
    if (isSeed(e)) return true
    if (ts.isIdentifier(e)) return flags.has(w.sym(e))
    if (ts.isPropertyAccessExpression(e)) return flags.has(w.sym(e.name))
    if (ts.isBinaryExpression(e) && (e.operatorToken.kind === K.QuestionQuestionToken)) return carries(e.left)
    return false
  }
  const props = []
  const edges = [] // [value expr, () => symbols]
  for (const sf of w.sourceFiles) walkNodes(sf, n => {
    if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name) && n.initializer) edges.push([n.initializer, () => [w.sym(n.name)]])
    else if (ts.isPropertyDeclaration(n) && n.initializer) edges.push([n.initializer, () => [w.sym(n.name)]])
    else if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken) { const l = strip(n.left); if (ts.isIdentifier(l)) edges.push([n.right, () => [w.sym(l)]]); else if (ts.isPropertyAccessExpression(l)) edges.push([n.right, () => [w.sym(l.name)]]) } else if (ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n)) {
      const v = ts.isPropertyAssignment(n) ? n.initializer : n.name
      edges.push([v, () => {
        const out = []
        const own = w.checker.getSymbolAtLocation(n.name); if (own) out.push(own)
        const ct = w.checker.getContextualType(n.parent)
        const nm = n.name.text ?? n.name.getText()
        if (ct) for (const t of ct.isUnion?.() ? ct.types : [ct]) { const p = t.getProperty?.(nm); if (p) out.push(p) }
        return out
      }])
    } else if (ts.isBindingElement(n) && ts.isIdentifier(n.name) && ts.isObjectBindingPattern(n.parent)) {
      const nm = (n.propertyName ?? n.name).text
      props.push([n, nm])
    }
  })
  const callEdges = []
  for (const c of [...w.calls, ...w.news]) {
    if (!c.arguments?.length) continue
    callEdges.push(c)
  }
  let changed = true, rounds = 0
  while (changed && rounds++ < 12) {
    changed = false
    const add = s => { if (s && !flags.has(s)) { flags.add(s); changed = true } }
    for (const [v, syms] of edges) if (carries(v) && isBool(v)) for (const s of syms()) add(s)
    for (const [n, nm] of props) { const t = w.checker.getTypeAtLocation(n.parent); const p = t.getProperty?.(nm); if (p && flags.has(p)) add(w.sym(n.name)) }
    for (const c of callEdges) c.arguments.forEach((a, i) => { if (carries(a) && isBool(a)) for (const t of w.resolveCall(c, null, { allCallers: false })) { const p = t.fn.parameters[i]; if (p && ts.isIdentifier(p.name)) add(w.sym(p.name)) } })
    // whole option objects handed on: members of the same name
    const names = new Set([...set].map(d => d.name?.text ?? d.name?.getText?.()).filter(Boolean))
    for (const c of callEdges) c.arguments.forEach((a, i) => {
      const x = stripAwait(a)
      if (!(ts.isIdentifier(x) || ts.isPropertyAccessExpression(x))) return
      const A = w.checker.getTypeAtLocation(x)
      for (const n of names) {
        const pa = A.getProperty?.(n)
        if (!pa || !flags.has(pa)) continue
        for (const t of w.resolveCall(c, null, { allCallers: false })) { const p = t.fn.parameters[i]; const pb = p && w.checker.getTypeAtLocation(p).getProperty?.(n); if (pb) add(pb) }
      }
    })
    // parameter properties and interface/implementation members share symbols through declarations
  }
  return { flags, carries }
}
/**
 * Intra-procedural flow under the client's assumptions, for every function:
 * reach = expressions that can execute; defs = which definitions of a local may reach each use.
 */
export function flow(w, client = {}, fns = w.fns) {
  const reach = new Set()
  const defs = new Map()
  const byId = []
  const ids = new Map()
  const idOf = n => { let i = ids.get(n); if (i === undefined) { i = byId.length; byId.push(n); ids.set(n, i) } return i }
  const symIds = new Map()
  const sid = s => { let i = symIds.get(s); if (i === undefined) { i = symIds.size; symIds.set(s, i) } return i }
  const def = (st, s, node, kill) => {
    const pre = `${sid(s)}|`
    const may = new Set()
    for (const x of st.may) if (!kill || !x.startsWith(pre)) may.add(x)
    may.add(pre + idOf(node))
    return { must: st.must, may }
  }
  const I = new Interp(w, {
    ...client,
    isEvent: () => false,
    onExpr(e, st) {
      reach.add(e); reach.add(strip(e))
      const x = strip(e)
      if (ts.isIdentifier(x)) {
        const s = w.sym(x)
        const d = s?.valueDeclaration
        if (d && ts.isVariableDeclaration(d) && ts.isIdentifier(d.name)) {
          const pre = `${sid(s)}|`
          const set = defs.get(x) ?? new Set()
          for (const f of st.may) if (f.startsWith(pre)) set.add(byId[Number(f.slice(pre.length))])
          defs.set(x, set)
        }
      }
    },
    // correlated tests of one unchanging local
    onAtom(e, pol, st) {
      if (!ts.isIdentifier(e)) return client.onAtom ? client.onAtom(e, pol, st) : st
      const s = w.sym(e), d = s?.valueDeclaration
      const fixed = d && ((ts.isVariableDeclaration(d) && (d.parent.flags & ts.NodeFlags.Const)) || (ts.isParameter(d) && !w.assignmentsOf(s).length) || ts.isBindingElement(d))
      if (!fixed) return st
      const f = `?${sid(s)}`
      if (st.must.has(f + (pol ? 'F' : 'T'))) return null
      return { must: new Set([...st.must, f + (pol ? 'T' : 'F')]), may: st.may }
    },
    onReturn(n) { reach.add(n) }, onThrow(n) { reach.add(n) },
    onDecl(d, st) { reach.add(d); if (ts.isIdentifier(d.name)) { const s = w.sym(d.name); if (s) { const r = def(st, s, d, true); r.must = new Set([...r.must].filter(x => x !== `?${sid(s)}T` && x !== `?${sid(s)}F`)); return r } } },
    onAssign(e, st) { reach.add(e); const l = ts.isBinaryExpression(e) ? strip(e.left) : e.operand ? strip(e.operand) : null; if (l && ts.isIdentifier(l)) { const s = w.sym(l); if (s) return def(st, s, e, ts.isBinaryExpression(e) && e.operatorToken.kind === K.EqualsToken) } },
  }, { maxDepth: 2 })
  I.relevant = new Set()
  for (const fn of fns) I.run(fn)
  for (const [k, v] of defs) if (!v.size) defs.delete(k)
  return { reach, defs }
}
