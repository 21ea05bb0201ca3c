// What a storage adapter asks of its backend: the calls that leave the process (or reach the
// long-lived map), whether they read or write, and the address they carry.
import { ts, strip, stripAwait, isFnLike, enclosingFn, walkNodes, origins, mkCtx, sigFile, K } from './common.mjs'

/** Store implementations of the adapter packages: [{pkg, holder, methods}]. */
export function stores(w) {
  if (w._stores) return w._stores
  const out = []
  for (const h of w.implementers('NoydbStore')) {
    const pkg = w.pkgOf(h.getSourceFile())
    if (!pkg?.startsWith('to-')) continue
    const methods = new Map()
    for (const m of (h.properties ?? h.members ?? [])) {
      const nm = m.name?.getText?.()
      if (!nm) continue
      if (isFnLike(m) && m.body) methods.set(nm, m)
      else if (ts.isPropertyAssignment(m)) { const t = w.resolveFnValue(m.initializer, null, {}, 0, new Set()); if (t.length === 1) methods.set(nm, t[0].fn) }
      else if (ts.isShorthandPropertyAssignment(m)) {
        const d = w.checker.getShorthandAssignmentValueSymbol(m)?.valueDeclaration
        if (d && isFnLike(d) && d.body) methods.set(nm, d)
        else if (d && ts.isVariableDeclaration(d) && d.initializer && isFnLike(strip(d.initializer))) methods.set(nm, strip(d.initializer))
      }
    }
    if (methods.size) out.push({ pkg, holder: h, methods, kinds: new Set() })
  }
  for (const s of out) {
    const seen = new Set()
    const go = (f, d) => {
      if (seen.has(f) || d > 6) return
      seen.add(f)
      walkNodes(f, n => {
        const b = site(w, n)
        if (b) s.kinds.add(b.kind)
        if (ts.isCallExpression(n)) for (const t of w.resolveCall(n, null, { opaqueIface: new Set(['NoydbStore']) })) if (w.pkgOf(t.fn.getSourceFile()) === s.pkg) go(t.fn, d + 1)
      })
    }
    for (const f of s.methods.values()) go(f, 0)
  }
  return (w._stores = out)
}

const has = (w, t, ...names) => names.every(n => !!w.checker.getPropertyOfType(t, n))
const typeOf = (w, e) => w.checker.getNonNullableType(w.checker.getTypeAtLocation(e))
const VERB = {
  map: { get: 'read', has: 'read', keys: 'list', entries: 'list', values: 'list', set: 'write', delete: 'remove', clear: 'remove' },
  storage: { getItem: 'read', key: 'list', setItem: 'write', removeItem: 'remove', clear: 'remove' },
  idb: { get: 'read', getKey: 'read', getAll: 'list', getAllKeys: 'list', openCursor: 'list', openKeyCursor: 'list', count: 'list', put: 'write', add: 'write', delete: 'remove', clear: 'remove' },
  fs: { readFile: 'read', readFileSync: 'read', stat: 'stat', access: 'stat', readdir: 'list', readdirSync: 'list', writeFile: 'write', writeFileSync: 'write', rename: 'write', renameSync: 'write', copyFile: 'write', appendFile: 'write', unlink: 'remove', unlinkSync: 'remove', rm: 'remove', rmSync: 'remove', rmdir: 'remove', mkdir: 'dir', mkdirSync: 'dir' },
  drive: { getFileMetadata: 'stat', getFileBytes: 'read', listFiles: 'list', createFile: 'write', updateFile: 'write', deleteFile: 'remove' },
}
const SQL = /^\s*(SELECT|INSERT|REPLACE|UPDATE|DELETE|CREATE|DROP|ALTER|TRUNCATE|BEGIN|COMMIT|ROLLBACK|START|SAVEPOINT|RELEASE|SET|PRAGMA|WITH|MERGE)\b/i

/** Backend call at a node, without its values: {kind, method, verb?} or null. */
export function site(w, n) {
  if (!ts.isCallExpression(n)) return null
  if (n._site !== undefined) return n._site
  return (n._site = site0(w, n))
}
function site0(w, n) {
  const c = strip(n.expression)
  const f = sigFile(w, n)
  if (/@types\/node\/fs/.test(f)) {
    const d = w.checker.getResolvedSignature(n)?.declaration
    const m = d?.name?.getText?.() ?? (ts.isPropertyAccessExpression(c) ? c.name.text : c.getText())
    return VERB.fs[m] ? { kind: 'fs', method: m, verb: VERB.fs[m] } : null
  }
  const rt = w.checker.getTypeAtLocation(n)
  if (rt.symbol?.name === 'Promise' && w.checker.getTypeArguments(rt)[0]?.symbol?.name === 'Response' && !w.resolveCall(n, null).length) return { kind: 'http', method: 'fetch' }
  if (!ts.isPropertyAccessExpression(c)) return null
  const m = c.name.text
  const t = typeOf(w, c.expression)
  const tn = t.symbol?.name
  if ((tn === 'Map' || tn === 'ReadonlyMap') && /EncryptedEnvelope/.test(w.checker.typeToString(t, undefined, ts.TypeFlags.NoTruncation))) return VERB.map[m] ? { kind: 'map', method: m, verb: VERB.map[m] } : null
  if (tn === 'Storage') return VERB.storage[m] ? { kind: 'storage', method: m, verb: VERB.storage[m] } : null
  if (tn === 'IDBObjectStore' || tn === 'IDBIndex') return VERB.idb[m] ? { kind: 'idb', method: m, verb: VERB.idb[m] } : null
  if (m === 'send' && n.arguments.length && has(w, t, 'send')) return { kind: 'aws', method: 'send' }
  if (VERB.fs[m] && has(w, t, 'readFile', 'writeFile')) return { kind: 'fs', method: m, verb: VERB.fs[m] }
  if (VERB.drive[m] && has(w, t, 'createFile', 'deleteFile')) return { kind: 'drive', method: m, verb: VERB.drive[m] }
  if (['run', 'get', 'all', 'first', 'iterate', 'raw'].includes(m) && has(w, t, 'run', 'all')) return { kind: 'sql', method: m, stmt: true }
  if (m === 'bind' && has(w, t, 'run', 'all')) return { kind: 'sql', method: m, stmt: true, bindOnly: true }
  if (['query', 'execute', 'exec', 'batch', 'executeMultiple'].includes(m) && (has(w, t, 'query') || has(w, t, 'execute') || has(w, t, 'prepare'))) return { kind: 'sql', method: m }
  return null
}

/** SQL text with unknown parts shown as §, or null. */
export function sqlText(w, e, ctx, I) {
  e = stripAwait(e)
  const v = I?.constEval(e, ctx)
  if (v?.vals.length === 1 && typeof v.vals[0] === 'string') return v.vals[0]
  if (ts.isTemplateExpression(e)) {
    let s = e.head.text
    for (const sp of e.templateSpans) { const x = sqlText(w, sp.expression, ctx, I); s += (x ?? '§') + sp.literal.text }
    return s
  }
  if (ts.isStringLiteral(e) || ts.isNoSubstitutionTemplateLiteral(e)) return e.text
  if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.PlusToken) { const a = sqlText(w, e.left, ctx, I), b = sqlText(w, e.right, ctx, I); return a === null && b === null ? null : (a ?? '§') + (b ?? '§') }
  if (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e) || ts.isCallExpression(e) || ts.isConditionalExpression(e)) {
    const ls = origins(w, e, ctx, { stop: x => x !== e && (ts.isTemplateExpression(x) || ts.isStringLiteral(x) || ts.isNoSubstitutionTemplateLiteral(x)) })
    const out = [...new Set(ls.map(l => l.expr === e ? null : ts.isTemplateExpression(l.expr) || ts.isStringLiteral(l.expr) || ts.isNoSubstitutionTemplateLiteral(l.expr) || ts.isBinaryExpression(l.expr) ? sqlText(w, l.expr, l.ctx, I) : null))]
    if (out.length === 1 && out[0] !== null) return out[0]
  }
  return null
}

/**
 * The SQL statement a node hands over together with its parameters, or null:
 * {sql, params:[{expr, ctx}]|null, node}. Covers client.query(text, params),
 * {sql, args} objects and prepared statements (bind or the executing call).
 */
export function sqlUse(w, n, ctx, I) {
  if (ts.isObjectLiteralExpression(n)) {
    const p = nm => { const x = n.properties.find(q => q.name?.getText() === nm); return x && (ts.isPropertyAssignment(x) ? x.initializer : ts.isShorthandPropertyAssignment(x) ? x.name : null) }
    const t = p('sql')
    if (!t) return null
    const text = sqlText(w, t, ctx, I)
    return text !== null && SQL.test(text) ? { sql: text, params: arr(w, p('args'), ctx, I), node: n, text: t } : null
  }
  const s = site(w, n)
  if (s?.kind !== 'sql') return null
  const c = strip(n.expression)
  if (s.stmt) {
    const ls = origins(w, c.expression, ctx, { stop: x => ts.isCallExpression(x) && ts.isPropertyAccessExpression(strip(x.expression)) && ['prepare', 'bind'].includes(strip(x.expression).name.text) })
    const src = ls.filter(l => ts.isCallExpression(l.expr) && ts.isPropertyAccessExpression(strip(l.expr.expression)))
    const prep = src.filter(l => strip(l.expr.expression).name.text === 'prepare')
    if (prep.length !== 1 || src.length !== ls.length) return null
    const text = sqlText(w, prep[0].expr.arguments[0], prep[0].ctx, I)
    if (text === null) return { sql: null, params: null, node: n, text: prep[0].expr.arguments[0] }
    return { sql: text, params: list(w, n.arguments, ctx, I), node: n, text: prep[0].expr.arguments[0] }
  }
  if (s.method === 'batch') return null
  const a = n.arguments[0] && stripAwait(n.arguments[0])
  if (!a || ts.isObjectLiteralExpression(a)) return null
  if (!/string/.test(w.checker.typeToString(w.checker.getTypeAtLocation(a)))) return null
  const text = sqlText(w, a, ctx, I)
  return { sql: text, params: arr(w, n.arguments[1], ctx, I), node: n, text: a }
}
const list = (w, args, ctx, I) => {
  const out = []
  for (const a of args) { if (ts.isSpreadElement(a)) { const x = arr(w, a.expression, ctx, I); if (!x) return null; out.push(...x) } else out.push({ expr: a, ctx }) }
  return out
}
const arr = (w, e, ctx, I) => {
  if (!e) return []
  const r = I.deref(e, ctx)
  if (r && !r.path.length && ts.isArrayLiteralExpression(r.expr)) return list(w, r.expr.elements, r.ctx, I)
  if (r && !r.path.length && ts.isCallExpression(r.expr)) {
    const t = w.resolveCall(r.expr, r.ctx)
    if (t.length === 1) { const rs = w.returnExprs(t[0].fn); if (rs.length === 1) return arr(w, rs[0], mkCtx(t[0].fn, r.expr, r.ctx, t[0].ctx), I) }
  }
  return null
}
/** Verb of a SQL text: read, write, remove, ddl or txn. */
export function sqlVerb(sql) {
  const m = SQL.exec(sql ?? '')
  if (!m) return null
  const v = m[1].toUpperCase()
  if (v === 'SELECT' || v === 'PRAGMA' || v === 'WITH') return 'read'
  if (v === 'INSERT' || v === 'REPLACE' || v === 'UPDATE' || v === 'MERGE') return 'write'
  if (v === 'DELETE' || v === 'TRUNCATE' || v === 'DROP') return 'remove'
  if (v === 'CREATE' || v === 'ALTER') return 'ddl'
  return 'txn'
}
/** Values a SQL statement is addressed by: {verb, eq: Map(column -> operand), or, conds}. */
export function sqlAddress(use) {
  const sql = use.sql.replace(/--[^\n]*/g, ' ').replace(/\s+/g, ' ').trim()
  const ph = []
  const text = sql.replace(/'(?:[^']|'')*'|\$(\d+)|\?(\d*)/g, (m, d, q) => {
    if (m[0] === "'") { ph.push({ lit: m.slice(1, -1) }); return `⟦${ph.length - 1}⟧` }
    const i = d ? Number(d) - 1 : q ? Number(q) - 1 : ph.filter(x => x.pos !== undefined && !x.num).length
    ph.push({ pos: i, num: !!(d || q) })
    return `⟦${ph.length - 1}⟧`
  })
  const op = s => { const m = /^⟦(\d+)⟧(?:::\w+)?$/.exec(s.trim()); if (!m) return /^-?\d+$/.test(s.trim()) ? { lit: s.trim() } : { other: s.trim() }; const x = ph[+m[1]]; return x.lit !== undefined ? { lit: x.lit } : { param: use.params?.[x.pos] ?? null, pos: x.pos } }
  const verb = sqlVerb(sql)
  const eq = new Map(), conds = []
  let or = false
  const ins = /^(?:INSERT(?: OR \w+)?|REPLACE) INTO [^(]*\(([^)]*)\) VALUES \((.*?)\)(?= ON | RETURNING|;|$)/i.exec(text)
  if (ins) {
    const cols = ins[1].split(',').map(x => x.trim().replace(/["`]/g, '').toLowerCase()), vals = split(ins[2])
    cols.forEach((c, i) => eq.set(c, op(vals[i] ?? '')))
  }
  const wh = /\bWHERE (.*?)(?= ORDER BY | LIMIT | GROUP BY | RETURNING |;|$)/i.exec(text)
  if (wh) {
    if (/\bOR\b/i.test(wh[1])) or = true
    for (const c of wh[1].replace(/^\((.*)\)$/, '$1').split(/\bAND\b/i)) {
      const m = /^\s*\(?\s*(?:\w+\.)?["`]?(\w+)["`]?\s*(=|<>|!=|>=|<=|<|>|NOT LIKE|LIKE|NOT IN|IN|IS NOT|IS)\s*(.*?)\s*\)?\s*$/i.exec(c)
      if (!m) { conds.push({ raw: c.trim() }); continue }
      const x = { col: m[1].toLowerCase(), op: m[2].toUpperCase(), val: op(m[3]) }
      conds.push(x)
      if (x.op === '=') eq.set(x.col, x.val)
    }
  }
  return { verb, eq, or, conds, where: !!wh, table: !/^\s*SELECT \d+\s*;?$/i.test(sql), insert: !!ins }
}
function split(s) { const out = []; let d = 0, cur = ''; for (const ch of s) { if (ch === '(') d++; if (ch === ')') d--; if (ch === ',' && d === 0) { out.push(cur); cur = '' } else cur += ch } out.push(cur); return out.map(x => x.trim()) }

/** Command name and input of client.send(new XCommand(input)): {name, input:{expr,ctx}} */
export function awsCommand(w, n, ctx, I) {
  const r = I.deref(n.arguments[0], ctx)
  const x = r && !r.path.length ? r.expr : null
  if (!x || !ts.isNewExpression(x)) return null
  return { name: strip(x.expression).getText().replace(/^.*\./, ''), input: { expr: x.arguments?.[0], ctx: r.ctx } }
}
export function awsVerb(name) {
  if (/^(Put|Update|BatchWrite|TransactWrite|Copy)/.test(name)) return 'write'
  if (/^Delete/.test(name)) return 'remove'
  if (/^(List|Query|Scan)/.test(name)) return 'list'
  return 'read'
}
/** HTTP verb of fetch(url, {method}). */
export function httpVerb(w, n, ctx, I) {
  const ini = n.arguments[1]
  if (!ini) return 'read'
  const m = I._propOf(ini, 'method', ctx, 0)
  const r = m ?? (() => { const d = I.deref(ini, ctx, ['method']); return d && !d.path.length ? I.constEval(d.expr, d.ctx) : null })()
  const v = r?.vals.length === 1 ? r.vals[0] : undefined
  if (v === undefined) return r ? 'read' : 'write'
  return /^(GET|HEAD)$/i.test(v) ? 'read' : /^PROPFIND$/i.test(v) ? 'list' : /^MKCOL$/i.test(v) ? 'dir' : /^DELETE$/i.test(v) ? 'remove' : 'write'
}
/** Full verb of a backend call in context (null when it only prepares). */
export function verbOf(w, n, ctx, I) {
  const s = site(w, n)
  if (!s) return null
  if (s.verb) return s.verb
  if (s.bindOnly) return null
  if (s.kind === 'http') return httpVerb(w, n, ctx, I)
  if (s.kind === 'aws') { const c = awsCommand(w, n, ctx, I); return c ? awsVerb(c.name) : 'write' }
  if (s.method === 'batch') return 'write'
  const u = sqlExec(w, n, ctx, I)
  return u.length ? (u.some(x => x === null) ? 'write' : u.find(v => v === 'write' || v === 'remove') ?? u[0]) : 'write'
}
/** Verbs of the SQL texts an executing call may run. */
function sqlExec(w, n, ctx, I) {
  const s = site(w, n), c = strip(n.expression)
  if (s.stmt) {
    const ls = origins(w, c.expression, ctx, { through: x => ts.isCallExpression(x) && ts.isPropertyAccessExpression(strip(x.expression)) && strip(x.expression).name.text === 'bind' ? [strip(x.expression).expression] : null, stop: x => ts.isCallExpression(x) && ts.isPropertyAccessExpression(strip(x.expression)) && strip(x.expression).name.text === 'prepare' })
    return ls.map(l => ts.isCallExpression(l.expr) && ts.isPropertyAccessExpression(strip(l.expr.expression)) && strip(l.expr.expression).name.text === 'prepare' ? sqlVerb(sqlText(w, l.expr.arguments[0], l.ctx, I)) : null)
  }
  const a = n.arguments[0]
  if (!a) return []
  const t = sqlText(w, a, ctx, I)
  if (t !== null) return [sqlVerb(t)]
  const r = I.deref(a, ctx, ['sql'])
  if (r && !r.path.length) return [sqlVerb(sqlText(w, r.expr, r.ctx, I))]
  return [null]
}
