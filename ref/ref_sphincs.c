#include "ref.h"
#include <string.h>
/* SPHINCS+-SHAKE-256f-simple: n=32 h=68 d=17 log t=9 k=35 w=16 */
enum { n=32, d=17, hp=4, a=9, k=35, len1=64, len=67, WOTS_HASH=0, WOTS_PK=1, TREE=2, FORS_TREE=3, FORS_ROOTS=4, WOTS_PRF=5, FORS_PRF=6 };
typedef struct { uint32_t layer; uint64_t tree; uint32_t type, w1, w2, w3; } adrs;
typedef struct { const uint8_t *pks, *sks; } ctx;
static void be(uint8_t *o, uint64_t v, int b) { for (int i=b-1;i>=0;i--) { o[i]=(uint8_t)v; v>>=8; } }
static void hash(uint8_t *out, const ctx *c, const adrs *A, const uint8_t *in, size_t inl) {
  uint8_t b[32]={0}; be(b,A->layer,4); be(b+8,A->tree,8); be(b+16,A->type,4); be(b+20,A->w1,4); be(b+24,A->w2,4); be(b+28,A->w3,4);
  ref_sponge s; ref_sp_init(&s,136,0x1f); ref_sp_absorb(&s,c->pks,n); ref_sp_absorb(&s,b,32); ref_sp_absorb(&s,in,inl); ref_sp_squeeze(&s,out,n);
}
static void chain(uint8_t *x, int from, int to, const ctx *c, adrs A) { for (int i=from;i<to;i++) { A.w3=i; hash(x,c,&A,x,n); } }
static void lengths(int *o, const uint8_t *m) {
  int cs=0; for (int i=0;i<len1;i++) { o[i]=(m[i/2]>>(i&1?0:4))&15; cs+=15-o[i]; }
  for (int i=0;i<3;i++) o[len1+i]=(cs>>(8-4*i))&15;
}
static void wots_sk(uint8_t *o, const ctx *c, uint32_t layer, uint64_t tree, uint32_t kp, int i) { adrs A={layer,tree,WOTS_PRF,kp,i,0}; hash(o,c,&A,c->sks,n); }
static void wots_leaf(uint8_t *o, const ctx *c, uint32_t layer, uint64_t tree, uint32_t kp) {
  uint8_t t[len*n]; for (int i=0;i<len;i++) { adrs A={layer,tree,WOTS_HASH,kp,i,0}; wots_sk(t+n*i,c,layer,tree,kp,i); chain(t+n*i,0,15,c,A); }
  adrs A={layer,tree,WOTS_PK,kp,0,0}; hash(o,c,&A,t,sizeof t);
}
static void xmss_leaves(uint8_t nodes[31][n], const ctx *c, uint32_t layer, uint64_t tree) { /* heap order, root at 0 */
  for (int i=0;i<16;i++) wots_leaf(nodes[15+i],c,layer,tree,i);
  for (int i=14;i>=0;i--) { int h=i<1?4:i<3?3:i<7?2:1; int first=(1<<(4-h))-1; adrs A={layer,tree,TREE,0,(uint32_t)h,(uint32_t)(i-first)}; uint8_t t[2*n]; memcpy(t,nodes[2*i+1],n); memcpy(t+n,nodes[2*i+2],n); hash(nodes[i],c,&A,t,2*n); }
}
void ref_spx_keypair(uint8_t *pk, uint8_t *sk, const uint8_t seed[96]) {
  memcpy(sk,seed,96); ctx c={sk+64,sk}; uint8_t nd[31][n]; xmss_leaves(nd,&c,d-1,0); memcpy(sk+96,nd[0],n); memcpy(pk,sk+64,64);
}
static void digest(uint8_t md[40], uint64_t *tree, uint32_t *leaf, const uint8_t *R, const uint8_t *pk, const uint8_t *m, size_t ml) {
  uint8_t b[49]; ref_sponge s; ref_sp_init(&s,136,0x1f); ref_sp_absorb(&s,R,n); ref_sp_absorb(&s,pk,64); ref_sp_absorb(&s,m,ml); ref_sp_squeeze(&s,b,49);
  memcpy(md,b,40); *tree=0; for (int i=0;i<8;i++) *tree=*tree<<8|b[40+i]; *leaf=b[48]&15;
}
static uint32_t idx(const uint8_t *md, int i) { uint32_t v=0; for (int b=0;b<a;b++) { int p=i*a+b; v=v<<1|((md[p>>3]>>(7-(p&7)))&1); } return v; }
void ref_spx_sign(uint8_t *sig, const uint8_t *m, size_t ml, const uint8_t *sk, const uint8_t optrand[32]) {
  ctx c={sk+64,sk}; ref_sponge s; ref_sp_init(&s,136,0x1f); ref_sp_absorb(&s,sk+32,n); ref_sp_absorb(&s,optrand,n); ref_sp_absorb(&s,m,ml); ref_sp_squeeze(&s,sig,n);
  uint8_t md[40]; uint64_t tree; uint32_t leaf; digest(md,&tree,&leaf,sig,sk+64,m,ml); sig+=n;
  uint8_t roots[k*n], root[n];
  for (int i=0;i<k;i++) {
    static _Thread_local uint8_t nd[1023][n]; uint32_t x=idx(md,i);
    for (uint32_t j=0;j<512;j++) { adrs P={0,tree,FORS_PRF,leaf,0,(uint32_t)i*512+j}, T={0,tree,FORS_TREE,leaf,0,(uint32_t)i*512+j}; uint8_t v[n]; hash(v,&c,&P,c.sks,n); if (j==x) memcpy(sig,v,n); hash(nd[511+j],&c,&T,v,n); }
    sig+=n;
    for (int h=1;h<=a;h++) { int cnt=512>>h, first=cnt-1; for (int j=0;j<cnt;j++) { adrs T={0,tree,FORS_TREE,leaf,(uint32_t)h,(uint32_t)(i*cnt+j)}; uint8_t t[2*n]; memcpy(t,nd[2*(first+j)+1],n); memcpy(t+n,nd[2*(first+j)+2],n); hash(nd[first+j],&c,&T,t,2*n); } }
    for (int h=0;h<a;h++) { int first=(512>>h)-1; memcpy(sig,nd[first+((x>>h)^1)],n); sig+=n; }
    memcpy(roots+n*i,nd[0],n);
  }
  adrs F={0,tree,FORS_ROOTS,leaf,0,0}; hash(root,&c,&F,roots,sizeof roots);
  for (uint32_t l=0;l<d;l++) {
    int ln[len]; lengths(ln,root);
    for (int i=0;i<len;i++) { adrs A={l,tree,WOTS_HASH,leaf,i,0}; wots_sk(sig,&c,l,tree,leaf,i); chain(sig,0,ln[i],&c,A); sig+=n; }
    uint8_t nd[31][n]; xmss_leaves(nd,&c,l,tree); for (int h=0;h<hp;h++) { int first=(16>>h)-1; memcpy(sig,nd[first+((leaf>>h)^1)],n); sig+=n; }
    memcpy(root,nd[0],n); leaf=tree&15; tree>>=4;
  }
}
void ref_spx_indices(uint64_t *tree, uint32_t *leaf, uint32_t fors[35], const uint8_t *m, size_t ml, const uint8_t *sk, const uint8_t optrand[32]) {
  uint8_t R[n], md[40]; ref_sponge s; ref_sp_init(&s,136,0x1f); ref_sp_absorb(&s,sk+32,n); ref_sp_absorb(&s,optrand,n); ref_sp_absorb(&s,m,ml); ref_sp_squeeze(&s,R,n);
  digest(md,tree,leaf,R,sk+64,m,ml); for (int i=0;i<k;i++) fors[i]=idx(md,i);
}
static void climb(uint8_t *x, const uint8_t *path, int H, uint32_t i, uint32_t base, const ctx *c, adrs A) {
  for (int h=0;h<H;h++) { uint8_t t[2*n]; int right=(i>>h)&1; memcpy(t+n*right,x,n); memcpy(t+n*!right,path+n*h,n); A.w2=h+1; A.w3=((base+i)>>(h+1)); hash(x,c,&A,t,2*n); }
}
int ref_spx_verify(const uint8_t *sig, const uint8_t *m, size_t ml, const uint8_t *pk) {
  ctx c={pk,0}; uint8_t md[40], roots[k*n], x[n]; uint64_t tree; uint32_t leaf; digest(md,&tree,&leaf,sig,pk,m,ml); sig+=n;
  for (int i=0;i<k;i++) { uint32_t q=idx(md,i); adrs T={0,tree,FORS_TREE,leaf,0,(uint32_t)i*512+q}; hash(roots+n*i,&c,&T,sig,n); climb(roots+n*i,sig+n,a,q,(uint32_t)i*512,&c,T); sig+=n*(a+1); }
  adrs F={0,tree,FORS_ROOTS,leaf,0,0}; hash(x,&c,&F,roots,sizeof roots);
  for (uint32_t l=0;l<d;l++) { int ln[len]; lengths(ln,x); uint8_t t[len*n];
    for (int i=0;i<len;i++) { adrs A={l,tree,WOTS_HASH,leaf,i,0}; memcpy(t+n*i,sig,n); chain(t+n*i,ln[i],15,&c,A); sig+=n; }
    adrs P={l,tree,WOTS_PK,leaf,0,0}; hash(x,&c,&P,t,sizeof t); adrs T={l,tree,TREE,0,0,0}; climb(x,sig,hp,leaf,0,&c,T); sig+=n*hp; leaf=tree&15; tree>>=4; }
  return !memcmp(x,pk+n,n);
}
