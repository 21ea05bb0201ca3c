// S06: secrets come from the platform CSPRNG with their documented length; Web Crypto only.
import { ts, strip, stripAwait, Interp, EMPTY, addMust, origins, enclosingFn, isFnLike, exportsOf, walkNodes, mkCtx, K } from '../lib/common.mjs'
import { subtle, isDraw, algProp, encodingThrough } from '../lib/crypto.mjs'
import { slice, mutationsOf, constVia } from '../lib/slice.mjs'
import fs from 'node:fs'
import path from 'node:path'
import { REPO } from '../lib/world.mjs'

const ELEM = { Uint8Array: 1, Uint8ClampedArray: 1, Int8Array: 1, Uint16Array: 2, Uint32Array: 4, Int32Array: 4, BigUint64Array: 8 }
const isMathRandom = n => ts.isCallExpression(n) && /^Math\.random$/.test(n.expression.getText())
const isUUID = (w, n) => ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && strip(n.expression).name.text === 'randomUUID'
const CRYPTO_PKG = /^(crypto-js|tweetnacl|libsodium.*|sodium-.*|@noble\/.*|@stablelib\/.*|node-forge|sjcl|bcrypt.*|argon2.*|scrypt.*|elliptic|jsencrypt|openpgp|asmcrypto.*|aes-js|hash\.js|sha\.js|pbkdf2|create-hash|create-hmac|randombytes|nanoid|uuid|ulid|ulidx|seedrandom|jose|jsonwebtoken|otplib|speakeasy|secrets\.js.*|shamir.*|@peculiar\/.*|node-webcrypto.*|@scure\/.*)$/

export default async function (w, rep) {
  rep.rule('source', 'each generated secret is built from a platform random draw of at least the documented number of bytes, and from no other random source')
  rep.rule('bytes', 'a drawn buffer is used whole: no drawn byte is ignored and no constant cut shortens it on the way to a secret')
  rep.rule('bias', 'a modular reduction of a random value either divides the range evenly or happens only below a rejection threshold that is a multiple of the modulus')
  rep.rule('keys', 'generated keys are 256-bit and imported key material never comes from a constant or a non-cryptographic generator')
  rep.rule('weak', 'a non-cryptographic random number is used only for delays and display identifiers')
  rep.rule('platform', 'no module imports or depends on a crypto library other than Web Crypto')
  const I = new Interp(w, {})

  const drawBytes = d => {
    const b = I.deref(d.arguments[0], null)
    const n = b.expr
    if (!n || b.path.length || !ts.isNewExpression(n)) return null
    const el = ELEM[strip(n.expression).getText()]
    const v = n.arguments?.[0] && constVia(w, I, n.arguments[0], enclosingFn(d))
    return el && v && v.every(x => typeof x === 'number') ? el * Math.min(...v) : null
  }
  const isSrc = n => isDraw(w, n) || isMathRandom(n) || isUUID(w, n) || !!subtle(w, n)
  const judge = (rule, key, expr, ctx, min, node, o = {}) => {
    const s = slice(w, expr, ctx, { stop: n => isSrc(n), callers: false })
    const bad = []
    let best = 0, seenDraw = false
    for (const [c] of s.calls) {
      if (isMathRandom(c)) bad.push(`Math.random() at ${w.loc(c)} feeds it`)
      else if (isDraw(w, c)) { seenDraw = true; const n = drawBytes(c); if (n !== null) best = Math.max(best, n); else if (o.anyLen) best = Math.max(best, min) } else if (isUUID(w, c)) { seenDraw = true; best = Math.max(best, 15) } else if (subtle(w, c) === 'generateKey') { seenDraw = true; best = 32 } else {
        const cc = strip(c.expression)
        if (ts.isPropertyAccessExpression(cc) && ['slice', 'substring', 'substr', 'subarray'].includes(cc.name.text) && c.arguments.length && c.arguments.every(a => I.constEval(a, null)) && fromDraw(cc.expression)) bad.push(`a constant cut at ${w.loc(c)} shortens it`)
      }
    }
    if (!seenDraw) bad.push('no platform random draw reaches it')
    else if (best < min) bad.push(`only ${best} random bytes reach it, documented ${min}`)
    rep.ob(rule, key, bad.length === 0, { node, msg: bad.join('; ') })
  }
  const fromDraw = e => [...slice(w, e, null, { stop: n => isSrc(n) }).calls.keys()].some(c => isDraw(w, c) || isUUID(w, c))
  const fnCtx = fn => mkCtx(fn)
  const propsNamed = (fn, name) => { // every value given to property `name` of an object built in fn (or helpers it inlines)
    const out = []
    const seen = new Set()
    const rec = (f, ctx, d) => {
      if (seen.has(f) || d > 4) return
      seen.add(f)
      walkNodes(f, n => {
        if (ts.isPropertyAssignment(n) && n.name.getText() === name) out.push({ expr: n.initializer, ctx })
        if (ts.isShorthandPropertyAssignment(n) && n.name.text === name) out.push({ expr: n.name, ctx })
        if (ts.isCallExpression(n)) for (const t of w.resolveCall(n, ctx)) if (w.pkgOf(t.fn) === w.pkgOf(fn)) rec(t.fn, mkCtx(t.fn, n, ctx), d + 1)
      })
    }
    rec(fn, fnCtx(fn), 0)
    return out
  }
  // ── documented secrets ────────────────────────────────────────────────
  const ex = (pkg, name, file) => exportsOf(w, pkg, file).find(e => e.name === name)
  const rets = (pkg, name, min, label, file) => {
    const e = ex(pkg, name, file)
    if (!e) return rep.missing('source', `${pkg} ${name}`)
    for (const r of w.returnExprs(e.fn)) judge('source', `${pkg}: ${label}`, r, fnCtx(e.fn), min, e.fn)
  }
  const props = (pkg, name, prop, min, label, file) => {
    const e = ex(pkg, name, file)
    const ps = e ? propsNamed(e.fn, prop) : []
    if (!ps.length) return rep.missing('source', `${pkg} ${name} ${prop}`)
    for (const p of ps) judge('source', `${pkg}: ${label}`, p.expr, p.ctx, min, p.expr)
  }
  rets('on-totp', 'generateSecret', 20, 'TOTP secret')
  rets('hub', 'generateULID', 10, 'ULID randomness')
  rets('hub', 'generateSalt', 32, 'salt', 'src/crypto.ts')
  rets('hub', 'generateIV', 12, 'IV', 'src/crypto.ts')
  props('on-email-otp', 'issue', 'code', 4, 'one-time code')
  props('on-email-otp', 'issue', 'salt', 16, 'one-time code salt')
  props('on-magic-link', 'createMagicLinkToken', 'token', 10, 'magic-link token')
  props('hub', 'createSession', 'sessionId', 10, 'session id', 'src/session/session.ts')
  for (const cls of w.findClass('SessionStore', 'in-rest')) {
    for (const m of w.publicMethods(cls)) {
      const sig = w.checker.typeToString(w.checker.getReturnTypeOfSignature(w.checker.getSignatureFromDeclaration(m)))
      if (sig === 'string') for (const r of w.returnExprs(m)) judge('source', `in-rest: session token from ${w.fnName(m)}`, r, fnCtx(m), 15, m)
    }
  }
  { // recovery codes
    const e = exportsOf(w, 'on-recovery').find(x => /^generateRecoveryCode/.test(x.name))
    if (!e) rep.missing('source', 'on-recovery generator')
    else { const ps = propsNamed(e.fn, 'codes'); if (!ps.length) rep.missing('source', 'on-recovery codes'); for (const p of ps) judge('source', 'on-recovery: recovery code', p.expr, p.ctx, 15, p.expr) }
  }
  { // magic-link delegation default token
    const e = ex('on-magic-link', 'issueMagicLinkDelegation')
    if (e) for (const p of propsNamed(e.fn, 'token')) judge('source', 'on-magic-link: delegation token', p.expr, p.ctx, 10, p.expr)
  }
  // WebAuthn challenges: object handed to navigator.credentials
  for (const c of w.calls) {
    if (!/^CredentialsContainer\.(create|get)$/.test(w.memberName(strip(c.expression)) ?? '')) continue
    const leaves = origins(w, c.arguments[0], null, { path: ['publicKey', 'challenge'], callers: true })
    for (const l of leaves) judge('source', `${w.pkgOf(c)}: challenge for ${strip(c.expression).name.text}`, l.expr, l.ctx, 32, c)
    // PRF salts are public; the stored user handle is not a secret
  }
  // device secret of the OIDC split
  { const e = ex('on-oidc', 'enrollOidc')
    if (e) {
      // the second factor of the split: material whose derived bits blind the payload
      let n = 0
      walkNodes(e.fn, x => { if (isDraw(w, x)) n++ })
      const der = []
      walkNodes(e.fn, x => { if (ts.isCallExpression(x)) for (const t of w.resolveCall(x, null)) walkNodes(t.fn, y => { if (ts.isCallExpression(y) && subtle(w, y) === 'importKey') { const o = origins(w, y.arguments[1], { fn: t.fn, call: x, parent: fnCtx(e.fn) }, { stop: z => isSrc(z), through: encodingThrough(w) }); for (const l of o) if (isDraw(w, strip(l.expr)) || isMathRandom(strip(l.expr))) der.push({ l, x }) } }) })
      if (!der.length) rep.ob('source', 'on-oidc: device secret', false, { node: e.fn, msg: 'the device half is no longer derived from a platform random draw' })
      for (const d of der) judge('source', 'on-oidc: device secret', d.l.expr, d.l.ctx, 32, d.x)
    }
  }
  // Shamir coefficients
  { const e = exportsOf(w, 'on-shamir', 'src/shamir.ts').find(x => x.name === 'splitSecret') ?? ex('on-shamir', 'splitSecret')
    if (!e) rep.missing('source', 'on-shamir splitSecret')
    else {
      const kParam = e.fn.parameters[1]
      const J = new Interp(w, { assume: x => (ts.isIdentifier(x) && kParam && w.declOf(x) === kParam ? { vals: [5] } : undefined) })
      // random generator calls reachable from splitSecret
      const gens = []
      const seen = new Set()
      const rec = (f, ctx, loop, d) => {
        if (seen.has(f) || d > 4) return
        seen.add(f)
        const visit = (n, inLoop) => {
          const lp = inLoop || (ts.isIterationStatement(n, false) && n !== f) || (isFnLike(n) && n !== f && n.parent && ts.isCallExpression(n.parent))
          if (ts.isCallExpression(n)) {
            let tg = w.resolveCall(n, ctx)
            const dp = ts.isIdentifier(strip(n.expression)) ? w.declOf(strip(n.expression)) : null
            if (dp && ts.isParameter(dp) && dp.initializer) tg = [...tg, ...w.resolveFnValue(dp.initializer, null, {}, 0, new Set())]
            const draws = tg.some(t => [...slice(w, w.returnExprs(t.fn)[0], mkCtx(t.fn, n, ctx), { stop: isSrc }).calls.keys()].some(x => isDraw(w, x) || isMathRandom(x)))
            const cc = strip(n.expression)
            const viaParam = ts.isIdentifier(cc) && w.declOf(cc) && ts.isParameter(w.declOf(cc))
            if (isDraw(w, n) || (viaParam && draws)) gens.push({ call: n, ctx, loop: lp })
            else for (const t of tg) if (w.pkgOf(t.fn) === 'on-shamir') rec(t.fn, mkCtx(t.fn, n, ctx), lp, d + 1)
          }
          ts.forEachChild(n, c => visit(c, lp))
        }
        ts.forEachChild(f, c => visit(c, loop))
      }
      rec(e.fn, fnCtx(e.fn), false, 0)
      if (!gens.length) rep.ob('source', 'on-shamir: polynomial coefficients', false, { node: e.fn, msg: 'no random generator call supplies the coefficients' })
      for (const g of gens) {
        const arg = isDraw(w, g.call) ? null : g.call.arguments[0]
        const n = arg ? J.constEval(arg, g.ctx)?.vals : null
        const byLen = arg && /length/.test(arg.getText())
        const ok = (g.loop && (n === null || n === undefined || n.every(v => v >= 4))) || byLen
        rep.ob('source', 'on-shamir: polynomial coefficients', !!ok, { node: g.call, msg: g.loop ? `draws ${JSON.stringify(n)} coefficient bytes for threshold 5` : 'one set of coefficients is drawn outside the loop over secret bytes and reused for every byte' })
      }
      const def = e.fn.parameters.find(p => p.initializer && isFnLike(w.resolveFnValue(p.initializer, null, {}, 0, new Set())[0]?.fn ?? e.fn) && /=>/.test(w.checker.typeToString(w.checker.getTypeAtLocation(p))))
      if (def) for (const t of w.resolveFnValue(def.initializer, null, {}, 0, new Set())) for (const r of w.returnExprs(t.fn)) judge('source', 'on-shamir: default generator', r, fnCtx(t.fn), 1, t.fn, { anyLen: true })
      // share evaluation uses every coefficient: highest-degree coefficient comes from the draw
    }
  }
  // ── whole use of drawn buffers ────────────────────────────────────────
  for (const d of w.calls.filter(c => isDraw(w, c))) {
    const fn = enclosingFn(d)
    const a0 = strip(d.arguments[0])
    // variable that holds the buffer
    let sym = ts.isIdentifier(a0) ? w.sym(a0) : null
    if (!sym) { let p = d.parent; while (p && (ts.isAsExpression(p) || ts.isParenthesizedExpression(p) || ts.isNonNullExpression(p))) p = p.parent; if (p && ts.isVariableDeclaration(p) && ts.isIdentifier(p.name)) sym = w.sym(p.name) }
    const key = `${w.rel(d)}: draw in ${fn ? w.fnName(fn) : 'module'}`
    if (!sym) { rep.ob('bytes', key, true, { node: d, fn }); continue }
    const total = drawBytes(d)
    const idx = new Set()
    let whole = false, any = false
    walkNodes(fn ?? d.getSourceFile(), n => {
      if (!ts.isIdentifier(n) || w.sym(n) !== sym || n === a0 || ts.isVariableDeclaration(n.parent) && n.parent.name === n) return
      any = true
      let p = n.parent
      while (ts.isNonNullExpression(p) || ts.isParenthesizedExpression(p) || ts.isAsExpression(p)) p = p.parent
      if (ts.isElementAccessExpression(p) && strip(p.expression) === n) { const v = I.constEval(p.argumentExpression, null); if (v) v.vals.forEach(x => idx.add(x)); else whole = true } else if (ts.isPropertyAccessExpression(p)) {
        const gp = p.parent
        if (p.name.text === 'length' || p.name.text === 'byteLength') return
        if (['slice', 'subarray'].includes(p.name.text) && ts.isCallExpression(gp) && gp.arguments.length) {
          const lo = I.constEval(gp.arguments[0], null), hi = gp.arguments[1] && I.constEval(gp.arguments[1], null)
          if (lo && (hi || gp.arguments.length === 1) && total !== null) { const h = hi ? hi.vals[0] : total; for (let i = lo.vals[0]; i < h; i++) idx.add(i) } else whole = true
        } else whole = true
      } else whole = true
    })
    const b = I.deref(d.arguments[0], null).expr
    const cnt = b && ts.isNewExpression(b) && b.arguments?.[0] ? constVia(w, I, b.arguments[0], fn)?.[0] : null
    const missing = []
    if (!whole && any && typeof cnt === 'number') for (let i = 0; i < cnt; i++) if (!idx.has(i)) missing.push(i)
    // an element replaced by a value that does not depend on it is no longer random, if the buffer is used afterwards
    const uses = []
    walkNodes(fn ?? d.getSourceFile(), n => { if (ts.isIdentifier(n) && w.sym(n) === sym) uses.push(n) })
    let over = null
    for (const n of uses) {
      let p = n.parent
      while (ts.isNonNullExpression(p) || ts.isParenthesizedExpression(p) || ts.isAsExpression(p)) p = p.parent
      let whole2 = null
      if (ts.isElementAccessExpression(p) && strip(p.expression) === n && ts.isBinaryExpression(p.parent) && p.parent.left === p && p.parent.operatorToken.kind === ts.SyntaxKind.EqualsToken) whole2 = uses.some(u => u.pos >= p.parent.right.pos && u.end <= p.parent.right.end) ? null : p.parent
      else if (ts.isPropertyAccessExpression(p) && p.name.text === 'fill' && ts.isCallExpression(p.parent)) whole2 = p.parent
      if (whole2 && whole2.pos > d.pos && uses.some(u => u.pos > whole2.end)) over ??= whole2
    }
    if (over) { rep.ob('bytes', key, false, { node: over, fn, msg: `${w.text(over)} replaces drawn bytes before the buffer is used` }); continue }
    rep.ob('bytes', key, missing.length === 0, { node: d, fn, msg: `drawn bytes ${missing.join(', ')} are never used` })
  }
  // ── bias ──────────────────────────────────────────────────────────────
  const rangeOf = (e, fn) => { // smallest element range among the draws an expression is built from
    let r = null
    for (const c of slice(w, e, fnCtx(fn), { stop: isSrc }).calls.keys()) if (isDraw(w, c)) { const n = I.deref(c.arguments[0], null).expr; const el = n && ts.isNewExpression(n) ? ELEM[strip(n.expression).getText()] : 1; r = Math.min(r ?? Infinity, 2 ** (8 * (el ?? 1))) }
    return r
  }
  const mods = []
  for (const fn of w.fns) {
    let draws = false
    walkNodes(fn, n => { if (n !== fn && isFnLike(n)) return false; if (isDraw(w, n)) draws = true })
    walkNodes(fn, n => {
      if (n !== fn && isFnLike(n)) return false
      if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.PercentToken) {
        const l = slice(w, n.left, fnCtx(fn), { stop: isSrc })
        if ([...l.calls.keys()].some(c => isDraw(w, c))) mods.push({ n, fn })
      }
    })
  }
  rep.count('modular_reductions_of_random_values', mods.length)
  for (const { n, fn } of mods) {
    const key = `${w.rel(n)}: modular reduction in ${w.fnName(fn)}`
    // assume each documented code length in turn
    let ok = true, msg = ''
    const range = rangeOf(n.left, fn)
    for (const digits of [6, 7, 8]) {
      const numParams = fn.parameters.filter(p => w.checker.typeToString(w.checker.getTypeAtLocation(p)) === 'number')
      const J = new Interp(w, {
        isEvent: x => x === n,
        assume: x => (ts.isIdentifier(x) && numParams.includes(w.declOf(x)) ? { vals: [digits] } : undefined),
        onAtom(a, pol, st) {
          if (!ts.isBinaryExpression(a)) return st
          const op = a.operatorToken.kind
          const same = x => strip(x).getText() === strip(n.left).getText() || w.sym(strip(x)) && w.sym(strip(x)) === w.sym(strip(n.left))
          const lim = (v, incl) => { const t = J.constEval(v, fnCtx(fn)), m = J.constEval(n.right, fnCtx(fn)); if (!t || !m) return false; return t.vals.every(x => m.vals.every(y => x > 0 && (x + (incl ? 1 : 0)) % y === 0)) }
          let below = false
          if (same(a.left)) { if (op === K.LessThanToken && pol) below = lim(a.right, false); if (op === K.GreaterThanEqualsToken && !pol) below = lim(a.right, false); if (op === K.LessThanEqualsToken && pol) below = lim(a.right, true); if (op === K.GreaterThanToken && !pol) below = lim(a.right, true) }
          if (same(a.right)) { if (op === K.GreaterThanToken && pol) below = lim(a.left, false); if (op === K.LessThanEqualsToken && !pol) below = lim(a.left, false) }
          return below ? addMust(st, 'below') : st
        },
        onCall(c, st) { if (isDraw(w, c)) return { st: { must: new Set([...st.must].filter(x => x !== 'below')), may: st.may } } },
        onExpr(x, st) { if (strip(x) === n) { const m = J.constEval(n.right, fnCtx(fn)); const even = range && m && m.vals.every(v => range % v === 0); if (!even && !st.must.has('below')) { ok = false; msg = 'the random value is reduced without rejecting the uneven top of its range' } } },
      }, { maxDepth: 3 })
      J.run(fn)
    }
    rep.ob('bias', key, ok, { node: n, fn, msg })
  }
  // a code of a fixed alphabet must be drawn, not scaled from a float
  // ── keys ──────────────────────────────────────────────────────────────
  for (const c of w.calls) {
    const m = subtle(w, c)
    const fn = enclosingFn(c)
    if (m === 'generateKey') {
      const lp = algProp(w, I, c.arguments[0], null, 'length')
      const v = lp && constVia(w, I, lp.expr, fn)
      rep.ob('keys', `${w.rel(c)}: generateKey in ${w.fnName(fn)}`, !!v && v.every(x => x === 256), { node: c, fn, msg: `generated key length ${JSON.stringify(v)}` })
    } else if (m === 'importKey') {
      const fmt = I.constEval(c.arguments[0], null)
      if (!fmt || fmt.vals[0] !== 'raw') continue
      const s = slice(w, c.arguments[1], fnCtx(fn), { stop: isSrc })
      const weak = [...s.calls.keys()].find(isMathRandom)
      const leaves = origins(w, c.arguments[1], null, { through: encodingThrough(w) })
      const konst = leaves.find(l => ts.isStringLiteral(strip(l.expr)) || (ts.isNewExpression(strip(l.expr)) && /Array$/.test(strip(l.expr).expression.getText()) && l.why !== 'stop' && !mutated(l) && strip(l.expr).arguments?.[0] && I.constEval(strip(l.expr).arguments[0], null)))
      rep.ob('keys', `${w.rel(c)}: importKey in ${w.fnName(fn)}`, !weak && !konst, { node: c, fn, msg: weak ? `key material uses Math.random() at ${w.loc(weak)}` : konst ? `key material is a constant at ${w.loc(konst.expr)}` : '' })
    }
  }
  function mutated(l) {
    for (const x of l.chain) { const s = ts.isVariableDeclaration(x) && ts.isIdentifier(x.name) ? w.sym(x.name) : null; if (s && mutationsOf(w, s).length) return true }
    return false
  }
  // ── Math.random ───────────────────────────────────────────────────────
  for (const c of w.calls.filter(isMathRandom)) {
    const fn = enclosingFn(c)
    // climb to the named place the number ends in
    let p = c.parent, names = []
    while (p && !isFnLike(p) && !ts.isBlock(p)) {
      if (ts.isVariableDeclaration(p) || ts.isPropertyAssignment(p)) names.push(p.name.getText())
      if (ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken) names.push(strip(p.left).getText())
      if (ts.isReturnStatement(p) && fn) names.push(w.fnName(fn).split(/[.>]/).pop())
      p = p.parent
    }
    if (p && ts.isArrowFunction(p) && p.body && !ts.isBlock(p.body)) names.push(w.fnName(p).split(/[.>]/).pop())
    const sec = names.find(n => /(token|secret|salt|\biv\b|nonce|challenge|code|passw|share|entropy|sessionId|seed|key$|random(bytes|values)|rand(om)?bytes)/i.test(n))
    const pkgUnlock = /^on-/.test(w.pkgOf(c)) || /\/(crypto|session\/|bundle\/ulid|team\/(keyring|magic))/.test(w.rel(c))
    rep.ob('weak', `${w.rel(c)}: Math.random in ${fn ? w.fnName(fn) : 'module'}`, !sec && !pkgUnlock, { node: c, fn, msg: `a non-cryptographic random number ends in ${sec ?? 'security code'}` })
  }
  // ── dependencies ──────────────────────────────────────────────────────
  for (const sf of w.sourceFiles) for (const s of sf.statements) {
    const spec = (ts.isImportDeclaration(s) || ts.isExportDeclaration(s)) && s.moduleSpecifier?.text
    if (!spec || spec.startsWith('.')) continue
    const nodeCrypto = /^(node:)?crypto$/.test(spec)
    const okNode = nodeCrypto && ts.isImportDeclaration(s) && s.importClause?.namedBindings && ts.isNamedImports(s.importClause.namedBindings) && s.importClause.namedBindings.elements.every(e => (e.propertyName ?? e.name).text === 'webcrypto')
    const bad = CRYPTO_PKG.test(spec) || (nodeCrypto && !okNode)
    if (bad) rep.ob('platform', `${w.rel(sf)} imports ${spec}`, false, { node: s, msg: `cryptography from ${spec} instead of the platform's Web Crypto` })
  }
  let pk = 0
  for (const d of fs.readdirSync(path.join(REPO, 'packages'))) {
    const f = path.join(REPO, 'packages', d, 'package.json')
    if (!fs.existsSync(f)) continue
    pk++
    const deps = Object.keys(JSON.parse(fs.readFileSync(f, 'utf8')).dependencies ?? {})
    rep.ob('platform', `packages/${d} dependencies`, !deps.some(x => CRYPTO_PKG.test(x)), { at: `packages/${d}/package.json`, msg: `depends on ${deps.filter(x => CRYPTO_PKG.test(x)).join(', ')}` })
  }
  rep.atLeast('source', 14)
  rep.atLeast('bytes', 20)
  rep.atLeast('bias', 1)
  rep.atLeast('keys', 8)
  return 'Backward slices from every documented secret to its random source with constant propagation of draw lengths, byte-coverage of drawn buffers, a dominance check on modular reductions, and an inventory of crypto imports.'
}
