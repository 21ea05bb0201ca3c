const R=process.env.R||'/repo'
const {createNoydb,...H}=await import(R+'/packages/hub/dist/index.js')
const {memory}=await import(R+'/packages/to-memory/dist/index.js')
const {withHistory}=await import(R+'/packages/hub/dist/history/index.js')
const {withBlobs}=await import(R+'/packages/hub/dist/blobs/index.js')
const st=memory()
const mk=async(u,s)=>createNoydb({store:st,user:u,secret:s,historyStrategy:withHistory(),blobStrategy:withBlobs()})
const o=await mk('alice','pw-alice-123456')
const v=await o.openVault('acme')
const c=v.collection('x')
await c.put('1',{a:1}); await c.put('1',{a:2})
await c.blob('1').put('f',new Uint8Array([1,2,3]))
await o.grant('acme',{userId:'bob',displayName:'b',role:'operator',passphrase:'pw-bob-1234567',permissions:{x:'rw'}})
console.log(Object.keys(JSON.parse((await st.get('acme','_keyring','bob'))._data).deks))
try{ await o.revoke('acme',{userId:'bob',rotateKeys:true}) }catch(e){console.log('revoke',e.message)}
const o2=await mk('alice','pw-alice-123456'); const v2=await o2.openVault('acme')
const c2=v2.collection('x')
for (const [n,f] of Object.entries({get:()=>c2.get('1'),hist:()=>c2.history('1'),blob:()=>c2.blob('1').get('f'),bl:()=>c2.blob('1').list(),ver:()=>v2.verifyBackupIntegrity(),ledger:()=>v2.ledger().entries({})})) try{console.log(n,JSON.stringify(await f()).slice(0,300))}catch(e){console.log(n,'ERR',e.constructor.name,e.message)}
