// S01: bodies handed to storage or relays are ciphertext while encryption is on.
import { ts, strip, origins, enclosingFn, storeOp, walkNodes, mkCtx, K } from '../lib/common.mjs'
import { subtle } from '../lib/crypto.mjs'
import { encryptionOn, SOME, PLAIN } from '../lib/encon.mjs'

export default async function (w, rep) {
  rep.rule('body', 'with encryption on, every envelope body that can reach a store write is the output of authenticated encryption or the unchanged body of an existing envelope')
  rep.rule('relay', 'with encryption on, every presence payload that can reach a relay is ciphertext')
  rep.rule('switch', 'every place that hands on the encryption switch hands on the instance setting itself, so it stays on wherever it was on')
  rep.rule('det', 'searchable copies of fields stored beside a record are encryption outputs')
  rep.rule('meta', 'an envelope carries no record content outside its body')

  const { flags, reach, defs, prune, through, isRoot, I } = encryptionOn(w, rep, 'body')
  const bodyLeaves = (expr, ctx, path) => origins(w, expr, ctx, { path, through, callers: true, defs, isRoot, prune, stop: (e, c, p) => !!subtle(w, e) })
  const judgeLeaf = l => {
    const e = strip(l.expr)
    if (subtle(w, e) === 'encrypt' || subtle(w, e) === 'wrapKey') return null
    // existing body: a property of something stored or handed over as an envelope
    if (l.path[l.path.length - 1] === '_data') return null
    if (ts.isPropertyAccessExpression(e) && e.name.text === '_data') return null
    if (e.kind === K.StringLiteral && e.text === '') return null
    if (l.why === 'undefined' || e.kind === K.NullKeyword) return null
    if (l.why === 'recursion') return null
    // serialised record of wrapped/encrypted fields
    if (ts.isCallExpression(e) && /^JSON\.stringify$/.test(e.expression.getText())) return sealed(e.arguments[0], l.ctx)
    return `plaintext body ${w.text(e, 60)} at ${w.loc(e)}`
  }
  /** JSON of an object all of whose members are ciphertext/IV is sealed. */
  const sealed = (arg, ctx) => {
    const d = I.deref(arg, ctx)
    if (!d.path.length && ts.isObjectLiteralExpression(d.expr)) {
      let hasCipher = false
      for (const p of d.expr.properties) {
        const v = ts.isPropertyAssignment(p) ? p.initializer : ts.isShorthandPropertyAssignment(p) ? p.name : null
        if (!v) return `plaintext body ${w.text(d.expr, 60)} at ${w.loc(d.expr)}`
        const nm = p.name.getText()
        const ls = origins(w, v, d.ctx, { through, callers: true, defs, isRoot, prune, stop: e => !!subtle(w, e) || isDrawish(e) })
        const allC = ls.length && ls.every(l => subtle(w, strip(l.expr)) === 'encrypt')
        if (allC) hasCipher = true
        else if (!/^_?(iv|nonce|userId|lastSeen|v|ts)$/i.test(nm)) return `plaintext member ${nm} of the body at ${w.loc(p)}`
      }
      return hasCipher ? null : `plaintext body ${w.text(d.expr, 60)} at ${w.loc(d.expr)}`
    }
    return `plaintext body ${w.text(arg, 60)} at ${w.loc(arg)}`
  }
  const isDrawish = e => ts.isCallExpression(e) && /getRandomValues$/.test(strip(e.expression).getText())

  // the switch as handed on: arguments, option members, assignments and initialisers of flag symbols
  const stays = (v, node, what) => {
    const c = I.constEval(v, mkCtx(enclosingFn(node) ?? null))
    const on = !!c && c.vals.length > 0 && c.vals.every(x => x === true || x === SOME)
    rep.ob('switch', `${w.rel(node)}: ${what} in ${w.fnName(enclosingFn(node))}`, on, { node, fn: enclosingFn(node), msg: `with encryption on, ${w.text(v, 60)} is not always true` })
  }
  const nameOf = d => d.name?.text ?? d.name?.getText?.() ?? '?'
  const flagDecl = s => { const d = s?.valueDeclaration ?? s?.declarations?.[0]; return d && flags.decls.has(d) ? d : null }
  for (const c of [...w.calls, ...w.news]) {
    if (!c.arguments?.length || !enclosingFn(c) || !reach.has(c)) continue
    for (const t of w.resolveCall(c, null, { allCallers: false })) c.arguments.forEach((a, i) => {
      const p = t.fn.parameters[i]
      if (p && ts.isIdentifier(p.name) && flags.has(w.sym(p.name)) && !ts.isSpreadElement(a)) stays(a, a, `${nameOf(p)} passed to ${w.fnName(t.fn)}`)
    })
  }
  for (const lit of w.objLits) {
    if (!enclosingFn(lit) || !reach.has(lit)) continue
    const ct = w.checker.getContextualType(lit)
    if (!ct) continue
    for (const p of lit.properties) {
      if (!ts.isPropertyAssignment(p) && !ts.isShorthandPropertyAssignment(p)) continue
      const nm = p.name.text ?? p.name.getText()
      const hit = (ct.isUnion?.() ? ct.types : [ct]).some(t => flagDecl(t.getProperty?.(nm)))
      if (hit) stays(ts.isPropertyAssignment(p) ? p.initializer : p.name, p, `${nm} handed over`)
    }
  }
  for (const d of flags.decls) {
    if (ts.isVariableDeclaration(d) || ts.isPropertyDeclaration(d)) {
      if (d.initializer) stays(d.initializer, d.initializer, `${nameOf(d)} initialised`)
      const s = w.sym(d.name)
      if (s) for (const a of w.assignmentsOf(s)) stays(a.value, a.node, `${nameOf(d)} assigned`)
    }
  }
  const collConst = (arg, ctx) => I.constEval(arg, ctx)?.vals ?? null
  let sites = 0
  for (const c of w.calls) {
    const op = storeOp(w, c)
    if (!op || (op !== 'put' && op !== 'presencePublish')) continue
    const fn = enclosingFn(c)
    if (!fn) continue
    const pkg = w.pkgOf(c)
    if (/^(to-|create-noy-db)/.test(pkg)) continue // backends forward what they are given
    sites++
    if (!reach.has(c) && !reach.has(c.parent)) { rep.count('sites_dead_with_encryption_on'); continue }
    if (op === 'put') {
      const colls = collConst(c.arguments[1], mkCtx(fn))
      const key = `${w.rel(c)}: ${w.fnName(fn)} writes ${colls ? colls.join('|') : w.text(c.arguments[1], 40)}`
      if (colls && colls.every(x => PLAIN.has(x))) { rep.ob('body', key, true, { node: c, fn, note: 'plaintext by design' }); continue }
      const bad = [...new Set(bodyLeaves(c.arguments[3], mkCtx(fn), ['_data']).map(judgeLeaf).filter(Boolean))]
      rep.ob('body', key, bad.length === 0, { node: c, fn, msg: bad.join('; ') })
    } else {
      const ls = origins(w, c.arguments[1], mkCtx(fn), { through, callers: true, defs, isRoot, prune, stop: e => !!subtle(w, e) })
      const bad = [...new Set(ls.map(judgeLeaf).filter(Boolean))]
      rep.ob('relay', `${w.rel(c)}: presence payload in ${w.fnName(fn)}`, bad.length === 0 && ls.length > 0, { node: c, fn, msg: bad.join('; ') })
    }
  }
  rep.count('write_sites', sites)
  // envelope literals: which fields, and what the searchable copies hold
  const FIELDS = new Set(['_noydb', '_v', '_ts', '_iv', '_data', '_by', '_tier', '_elevatedBy', '_det', '_sig'])
  for (const lit of w.objLits) {
    const has = n => lit.properties.some(p => p.name && p.name.getText() === n)
    if (!has('_data') || !has('_iv')) continue
    const fn = enclosingFn(lit)
    if (!fn || /^(to-|create-noy-db)/.test(w.pkgOf(lit))) continue
    const key = `${w.rel(lit)}: envelope built in ${w.fnName(fn)}`
    const extra = []
    const visitProps = l => { for (const p of l.properties) {
      if (ts.isSpreadAssignment(p)) { walkNodes(p.expression, n => { if (ts.isObjectLiteralExpression(n)) { visitProps(n); return false } }); continue }
      const nm = p.name?.getText()
      if (!FIELDS.has(nm)) extra.push(nm)
    } }
    visitProps(lit)
    rep.ob('meta', key, extra.length === 0, { node: lit, fn, msg: `extra envelope field(s) ${extra.join(', ')} stored in clear` })
    // metadata values must not be record content
    for (const p of lit.properties) {
      const nm = p.name?.getText()
      if (!['_by', '_ts', '_v', '_tier', '_elevatedBy', '_noydb'].includes(nm)) continue
      const v = ts.isPropertyAssignment(p) ? strip(p.initializer) : p.name
      const leaves = origins(w, v, mkCtx(fn), { callers: false })
      const leak = leaves.find(l => ts.isCallExpression(strip(l.expr)) && /^JSON\.stringify$/.test(strip(l.expr).expression.getText()))
      rep.ob('meta', `${key} field ${nm}`, !leak, { node: p, fn, msg: leak ? `serialised content in ${nm}` : '' })
    }
  }
  // deterministic copies
  for (const c of w.objLits) for (const p of c.properties) {
    if (!p.name || p.name.getText() !== '_det') continue
    const fn = enclosingFn(c)
    const v = ts.isPropertyAssignment(p) ? p.initializer : p.name
    if (/^to-/.test(w.pkgOf(c))) continue
    detJudge(v, fn, p)
  }
  for (const sf of w.sourceFiles) walkNodes(sf, n => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && ts.isPropertyAccessExpression(strip(n.left)) && strip(n.left).name.text === '_det' && !/^to-/.test(w.pkgOf(n))) detJudge(n.right, enclosingFn(n), n) })
  function detJudge(v, fn, node) {
    // the values placed into the map
    const d = I.deref(v, null)
    const vals = []
    const id = strip(v)
    if (ts.isObjectLiteralExpression(d.expr)) for (const p of d.expr.properties) if (ts.isPropertyAssignment(p)) vals.push(p.initializer)
    const sym = ts.isIdentifier(id) ? w.sym(id) : null
    if (sym && fn) walkNodes(fn, n => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken) { const l = strip(n.left); if (ts.isElementAccessExpression(l) && ts.isIdentifier(strip(l.expression)) && w.sym(strip(l.expression)) === sym) vals.push(n.right) } })
    const bad = []
    for (const x of vals) {
      const parts = ts.isTemplateExpression(strip(x)) ? strip(x).templateSpans.map(s => s.expression) : [x]
      for (const y of parts) for (const l of origins(w, y, mkCtx(fn), { through, stop: e => !!subtle(w, e) || isDrawish(e) })) {
        const e = strip(l.expr)
        const m = subtle(w, e)
        if (m === 'encrypt' || m === 'sign' || m === 'deriveBits' || isDrawish(e)) continue
        if (ts.isCallExpression(e) && /encode|from|btoa/.test(e.expression.getText())) continue
        if (l.path[0] === '_det' || (ts.isPropertyAccessExpression(e) && e.name.text === '_det')) continue
        bad.push(`${w.text(e, 50)} at ${w.loc(e)}`)
      }
    }
    rep.ob('det', `${w.rel(node)}: searchable copies in ${w.fnName(fn)}`, bad.length === 0, { node, fn, msg: `not an encryption output: ${bad.join('; ')}` })
  }
  rep.atLeast('body', 25)
  rep.atLeast('relay', 1)
  rep.atLeast('switch', 12)
  rep.atLeast('meta', 15)
  return 'With the encryption switch assumed on (constant propagation through every symbol that carries it), backward provenance of every envelope body and relay payload that can reach a write.'
}
