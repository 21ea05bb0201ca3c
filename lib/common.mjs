// Shared vocabulary of the checks: store operations, public surface, assumptions.
import { ts, strip, stripAwait, isFnLike, enclosingFn, walkNodes, walkOwn, isAsync, isGenerator, hasMod, mkCtx } from './world.mjs'
import { Interp, EMPTY, addMust, addMay, drop, clearFacts, join } from './interp.mjs'
import { origins } from './prov.mjs'
const K = ts.SyntaxKind
export { ts, strip, stripAwait, isFnLike, enclosingFn, walkNodes, walkOwn, isAsync, isGenerator, hasMod, mkCtx, Interp, EMPTY, addMust, addMay, drop, clearFacts, join, origins, K }

export const STORE_READS = new Set(['get', 'list', 'loadAll', 'listPage', 'listSince', 'listVaults', 'ping', 'presenceSubscribe'])
export const STORE_WRITES = new Set(['put', 'delete', 'saveAll', 'tx', 'presencePublish'])

/** Name of the NoydbStore operation a call performs on the storage contract, or null. */
export function storeOp(w, call) {
  if (!ts.isCallExpression(call)) return null
  if (call._storeOp !== undefined) return call._storeOp
  const c = strip(call.expression)
  let r = null
  if (ts.isPropertyAccessExpression(c)) {
    const m = w.memberName(c)
    if (m?.startsWith('NoydbStore.')) r = m.slice(11)
    else if (m?.startsWith('?.') || m === null) {
      const t = w.typeName(c.expression)
      if (t === 'NoydbStore') r = c.name.text
    }
  }
  return (call._storeOp = r)
}
export const isStoreWrite = (w, n) => { const o = storeOp(w, n); return !!o && STORE_WRITES.has(o) }

/** `new X(...)` class name of a throw statement or expression, or null. */
export function thrownClass(w, s) {
  const e = ts.isThrowStatement(s) ? strip(s.expression) : s
  if (e && ts.isNewExpression(e)) return strip(e.expression).getText()
  return null
}

/** Exported functions of a package entry file. */
export function exportsOf(w, pkg, file = 'src/index.ts') {
  const sf = w.sourceFiles.find(f => w.rel(f) === `packages/${pkg}/${file}`)
  if (!sf) return []
  const sym = w.checker.getSymbolAtLocation(sf)
  if (!sym) return []
  const out = []
  for (let s of w.checker.getExportsOfModule(sym)) {
    if (s.flags & ts.SymbolFlags.Alias) s = w.checker.getAliasedSymbol(s)
    for (const d of s.declarations ?? []) {
      if (isFnLike(d) && d.body) out.push({ name: s.name, fn: d })
      else if (ts.isVariableDeclaration(d) && d.initializer && isFnLike(strip(d.initializer))) out.push({ name: s.name, fn: strip(d.initializer) })
      else if (ts.isClassDeclaration(d)) out.push({ name: s.name, cls: d })
    }
  }
  return out
}
export function paramTypes(w, fn) { return fn.parameters.map(p => w.typeName(p)) }

/** Assume property `prop` of objects whose type name is in `types` has one of vals. */
export function assumeProps(table) {
  // table: [{types:[..]|null, prop, vals:[...]}]
  return (e, ctx, I) => {
    if (ts.isPropertyAccessExpression(e)) {
      const hit = table.filter(t => t.prop === e.name.text)
      if (!hit.length) return undefined
      const tn = I.w.typeName(e.expression)
      for (const h of hit) if (!h.types || h.types.includes(tn)) return { vals: h.vals }
    } else if (ts.isIdentifier(e)) {
      const d = I.w.declOf(e)
      if (d && ts.isBindingElement(d) && ts.isObjectBindingPattern(d.parent)) {
        const nm = (d.propertyName ?? d.name).text
        const hit = table.filter(t => t.prop === nm)
        if (!hit.length) return undefined
        const tn = I.w.checker.typeToString(I.w.checker.getTypeAtLocation(d.parent))
        const t2 = I.w.checker.getTypeAtLocation(d.parent).symbol?.name
        for (const h of hit) if (!h.types || h.types.includes(tn) || h.types.includes(t2)) return { vals: h.vals }
      }
    }
    return undefined
  }
}
/** Call chain of an interpretation context, innermost first. */
export function chain(w, ctx) {
  const out = []
  let c = ctx
  while (c) { if (c.fn) out.push(`${w.fnName(c.fn)}${c.call ? ` called at ${w.loc(c.call)}` : ''}`); c = c.parent }
  return out
}

/** File that declares the signature a call resolves to ('' when unknown). */
export function sigFile(w, call) {
  const d = w.checker.getResolvedSignature(call)?.declaration
  return d?.getSourceFile?.()?.fileName ?? ''
}
const FS_WRITES = new Set(['writeFile', 'createWriteStream', 'appendFile', 'writeFileSync', 'appendFileSync', 'open', 'openSync', 'rename', 'renameSync', 'copyFile', 'rm', 'rmSync', 'unlink', 'unlinkSync', 'mkdir', 'mkdirSync', 'symlink'])
/** Name of the node:fs mutation a call performs, or null. */
export function fsWrite(w, call) {
  if (!ts.isCallExpression(call)) return null
  const c = strip(call.expression)
  const n = ts.isPropertyAccessExpression(c) ? c.name : ts.isIdentifier(c) ? c : null
  if (!n) return null
  const d = w.checker.getResolvedSignature(call)?.declaration
  const real = d?.name?.getText?.() ?? n.text
  if (!FS_WRITES.has(real)) return null
  return /@types\/node\/fs(\/|\.)/.test(d?.getSourceFile?.()?.fileName ?? '') ? real : null
}
/** Functions and classes users can import: everything exported by an index.ts of a package. */
export function publicApi(w) {
  if (w._public) return w._public
  const fns = new Map(), classes = new Map()
  for (const sf of w.sourceFiles) {
    if (!/\/src\/(.*\/)?index\.ts$/.test(sf.fileName)) continue
    const ms = w.checker.getSymbolAtLocation(sf)
    if (!ms) continue
    for (let s of w.checker.getExportsOfModule(ms)) {
      if (s.flags & ts.SymbolFlags.Alias) s = w.checker.getAliasedSymbol(s)
      for (const d of s.declarations ?? []) {
        if (isFnLike(d) && d.body) fns.set(d, s.name)
        else if (ts.isVariableDeclaration(d) && d.initializer && isFnLike(strip(d.initializer))) fns.set(strip(d.initializer), s.name)
        else if (ts.isClassDeclaration(d)) { classes.set(d, s.name); for (const m of w.publicMethods(d)) fns.set(m, `${s.name}.${m.name.getText()}`) }
      }
    }
  }
  return (w._public = { fns, classes })
}
/** Calls of platform helpers that only compute on their arguments. */
export function isPureLib(w, call) {
  const f = sigFile(w, call)
  if (/\/lib\.es[^/]*\.d\.ts$/.test(f)) return true
  const c = strip(call.expression)
  const nm = c.getText()
  if (/^(btoa|atob|structuredClone|String|Number|Boolean|BigInt|parseInt|parseFloat|isNaN|encodeURIComponent|decodeURIComponent|encodeURI)$/.test(nm)) return true
  if (/^(Uint8Array|Uint32Array|Array|ArrayBuffer|DataView|Map|Set|Object|JSON|Math|Date|Promise|Blob|URL|URLSearchParams|TextEncoder|TextDecoder|Error|TypeError|RangeError|Buffer|String|Number|Symbol|Reflect|Intl|RegExp)\b/.test(nm)) return true
  const d = w.checker.getResolvedSignature(call)?.declaration
  const own = d ? w.ownerName(d) : null
  return !!own && /^(TextEncoder|TextDecoder|Buffer|BufferConstructor|URL|URLSearchParams|Blob|DataView|Headers|FormData|CompressionStream|DecompressionStream)$/.test(own)
}

/** A function, or a method of a class that is exported or instantiated somewhere. */
export function usedFn(w, api, fn) {
  const cls = fn.parent && ts.isClassLike(fn.parent) ? fn.parent : null
  if (!cls || api.classes.has(cls)) return true
  w._made ??= new Set(w.sourceFiles.flatMap(sf => { const o = []; walkNodes(sf, n => { if (ts.isNewExpression(n)) o.push(strip(n.expression).getText()) }); return o }))
  return w._made.has(cls.name?.text)
}

/** Runs another property's check, keeping only the rules in `map` (their id there -> id here). */
export async function borrow(check, w, rep, map) {
  await check(w, {
    rule() {}, count() {}, atLeast() {}, has: () => false,
    ob(rule, ...a) { if (map[rule]) rep.ob(map[rule], ...a) },
    missing(rule, ...a) { if (map[rule]) rep.missing(map[rule], ...a) },
  })
}
