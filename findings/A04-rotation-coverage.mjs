const R=process.env.R||'/repo'
const {createNoydb,...H}=await import(R+'/packages/hub/dist/index.js')
const {memory}=await import(R+'/packages/to-memory/dist/index.js')
const {withHistory}=await import(R+'/packages/hub/dist/history/index.js')
const {withBlobs}=await import(R+'/packages/hub/dist/blobs/index.js')
const st=memory()
const mk=async(u,s)=>createNoydb({store:st,user:u,secret:s,historyStrategy:withHistory(),blobStrategy:withBlobs()})
const o=await mk('alice','pw-alice-123456')
const v=await o.openVault('acme')
const c=v.collection('x',{tiers:[0,1]})
await c.put('2',{b:1}); await c.put('2',{b:2}); await c.putAtTier('1',{a:1},1)
await c.blob('2').put('f',new Uint8Array([1,2,3]))
console.log(await c.getAtTier('1'))
await o.grant('acme',{userId:'bob',displayName:'b',role:'admin',passphrase:'pw-bob-1234567'})
console.log(Object.keys(JSON.parse((await st.get('acme','_keyring','bob'))._data).deks))
const sel=process.argv[2]
await o.rotate('acme',[sel])
const o2=await mk('alice','pw-alice-123456'); const v2=await o2.openVault('acme')
const c2=v2.collection('x',{tiers:[0,1]})
for (const [n,f] of Object.entries({get:()=>c2.getAtTier('1'),blob:()=>c2.blob('2').get('f'),rec:()=>v2.ledger().reconstruct('x','2',{b:2},1)})) try{console.log(n,JSON.stringify(await f()).slice(0,300))}catch(e){console.log(n,'ERR',e.constructor.name,e.message)}
