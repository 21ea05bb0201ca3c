// Two conditional puts that both expect version 1 are both accepted by the Postgres, MySQL and D1
// stores when their version checks run before either of their writes.
// Run from the repository after a build: node <this file> [repository]
const repo = process.argv[2] ?? '/repo'
const { postgres } = await import(`${repo}/packages/to-postgres/dist/index.js`)
const { mysql } = await import(`${repo}/packages/to-mysql/dist/index.js`)
const { d1 } = await import(`${repo}/packages/to-cloudflare-d1/dist/index.js`)
const env = v => ({ _noydb: 1, _v: v, _ts: 't', _iv: '', _data: `"${v}"` })

/** A table with one row at version 1; every statement takes one turn of the event loop. */
const table = () => {
  let v = 1
  const writes = []
  const exec = async (sql, params) => {
    await new Promise(r => setTimeout(r, 1))
    if (/^\s*SELECT/i.test(sql)) return [{ v }]
    if (/^\s*(INSERT|REPLACE)/i.test(sql)) { v = params[3]; writes.push(v) }
    return []
  }
  return { exec, writes }
}
const clients = {
  postgres: t => postgres({ client: { query: async (s, p) => ({ rows: await t.exec(s, p), rowCount: 1 }) }, autoMigrate: false }),
  mysql: t => mysql({ client: { execute: async (s, p) => [await t.exec(s, p), []] }, autoMigrate: false }),
  d1: t => d1({ db: { prepare: s => ({ bind: (...p) => ({ run: () => t.exec(s, p), first: async () => (await t.exec(s, p))[0] ?? null, all: async () => ({ results: await t.exec(s, p) }) }), run: () => t.exec(s, []) }), batch: async () => [] }, autoMigrate: false }),
}
for (const [name, make] of Object.entries(clients)) {
  const t = table(), store = make(t)
  const rs = await Promise.allSettled([store.put('v', 'c', 'r', env(2), 1), store.put('v', 'c', 'r', env(2), 1)])
  const ok = rs.filter(r => r.status === 'fulfilled').length
  console.log(`${name}: ${ok} of 2 puts expecting version 1 accepted, ${t.writes.length} writes${ok > 1 ? ' — the first is overwritten without a conflict' : ''}`)
}
