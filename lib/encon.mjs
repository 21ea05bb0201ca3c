// The program as it runs with encryption on: which nodes can execute, which
// definitions reach which uses, and provenance restricted to those.
import { ts, strip, Interp, origins, enclosingFn, walkNodes, mkCtx, K } from './common.mjs'
import { flagSymbols, flow } from './flags.mjs'
import { Opaque } from './interp.mjs'
import { encodingThrough } from './crypto.mjs'
export const SOME = new Opaque()
// collections whose bodies are plaintext by design (wrapped keys, sync bookkeeping, bundle handle)
export const PLAIN = new Set(['_keyring', '_sync', '_meta'])

export function encryptionOn(w, rep, rule) {
  const isSeed = e => {
    if (!ts.isBinaryExpression(e)) return false
    const l = strip(e.left), op = e.operatorToken.kind
    return ts.isPropertyAccessExpression(l) && l.name.text === 'encrypt' && w.memberName(l) === 'NoydbOptions.encrypt' && op === K.ExclamationEqualsEqualsToken && strip(e.right).kind === K.FalseKeyword
  }
  const { flags } = flagSymbols(w, isSeed)
  // the switch under its public name on handles that receive it from their creator
  for (const sf of w.sourceFiles) if (w.pkgOf(sf) === 'hub') walkNodes(sf, n => {
    if ((ts.isPropertyDeclaration(n) || ts.isPropertySignature(n) || ts.isParameter(n)) && n.name?.getText() === 'encrypted' && w.checker.typeToString(w.checker.getNonNullableType(w.checker.getTypeAtLocation(n))) === 'boolean') flags.add(w.sym(n.name))
  })
  rep.count('encryption_flag_symbols', flags.size)
  if (flags.size < 5) rep.missing(rule, 'the encryption switch')
  const assume = (e, ctx, I) => {
    if (ts.isPropertyAccessExpression(e)) {
      if (flags.has(w.sym(e.name))) return { vals: [true] }
      if (e.name.text === 'encrypt' && w.memberName(e) === 'NoydbOptions.encrypt') return { vals: [true, undefined] }
    }
    if (ts.isIdentifier(e)) {
      if (flags.has(w.sym(e))) return { vals: [true] }
      if (present.has(w.sym(e))) return { vals: [SOME] }
    }
    return undefined
  }
  const present = new Set() // parameters that always hold a value while encryption is on
  const hubFns = w.fns.filter(f => !/create-noy-db/.test(w.rel(f)))
  const isRoot = fn => storeImpl(fn)
  let { reach, defs } = flow(w, { assume }, hubFns)
  const I = new Interp(w, { assume })
  const thr = encodingThrough(w)
  // a value selected through a node that cannot execute with encryption on does not count
  const prune = n => isPoint(n) && !reach.has(n)
  const isPoint = n => {
    if (ts.isVariableDeclaration(n)) return !!n.initializer && !!enclosingFn(n)
    if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) return !!enclosingFn(n)
    // operands of a conditional / branch of a return
    const p = n.parent
    if (p && (ts.isReturnStatement(p) || ts.isConditionalExpression(p))) return !!enclosingFn(n)
    return false
  }
  const through = (e, c) => thr(e, c) || null
  const impls = new Set(w.implementers('NoydbStore'))
  const storeImpl = fn => { let p = fn; while (p && !impls.has(p)) { if (ts.isSourceFile(p)) return false; p = p.parent } return !!p && (fn.parent === p || fn.parent?.parent === p) }
  // a key parameter whose every live argument is a key is never null here
  for (const fn of hubFns) for (const p of fn.parameters) {
    if (!ts.isIdentifier(p.name) || !/^CryptoKey \| (null|undefined)|^(null|undefined) \| CryptoKey/.test(w.checker.typeToString(w.checker.getTypeAtLocation(p)))) continue
    const ls = origins(w, p.name, mkCtx(fn), { callers: true, defs, isRoot, prune, stop: e => ts.isCallExpression(e) })
    if (ls.length && ls.every(l => ts.isCallExpression(strip(l.expr)) && !/null|undefined/.test(w.checker.typeToString(w.checker.getTypeAtLocation(l.expr))))) present.add(w.sym(p.name))
  }
  rep.count('key_parameters_always_present', present.size)
  if (present.size) ({ reach, defs } = flow(w, { assume }, hubFns))
  return { flags, assume, reach, defs, prune, through, isRoot, I, hubFns }
}
