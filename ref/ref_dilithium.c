#include "ref.h"
#include <stdlib.h>
#include <string.h>
/* With REF_MUT (tools/rare.c only) each decision also has a wrong version; MUT records where the two differ. */
#ifdef REF_MUT
_Thread_local uint64_t ref_mut_seen[2]; _Thread_local int ref_mut_on=-1;
#define MUT(id,real,wrong) ({ __typeof__(real) r_=(real), w_=(wrong); if(r_!=w_)ref_mut_seen[(id)>>6]|=1ULL<<((id)&63); ref_mut_on==(id)?w_:r_; })
#else
#define MUT(id,real,wrong) (real)
#endif
enum { Q=8380417, N=256, K=4, L=4, ETA=2, TAU=39, BETA=78, G1=1<<17, G2=(Q-1)/88, OMEGA=80, D=13 };
typedef struct { int32_t c[N]; } poly; /* values in [0,Q) unless stated */
static int32_t zt[N];
static int32_t mulq(int64_t a, int64_t b) { return (int32_t)((uint64_t)(a*b) % Q); }
static int32_t powq(int32_t b, unsigned e) { int32_t r=1; while (e) { if (e&1) r=mulq(r,b); b=mulq(b,b); e>>=1; } return r; }
__attribute__((constructor)) static void tab(void) {
  for (int i=0;i<N;i++) { int br=0; for (int b=0;b<8;b++) br|=((i>>b)&1)<<(7-b); zt[i]=powq(1753,br); }
}
static int32_t pos(int32_t x) { return x<0?x+Q:x; }
static void ntt(poly *p) {
  int k=0; for (int len=128;len>=1;len>>=1) for (int s=0;s<N;s+=2*len) { int32_t z=zt[++k];
    for (int j=s;j<s+len;j++) { int32_t t=mulq(z,p->c[j+len]); int32_t u=p->c[j]; p->c[j+len]=pos(u-t); int32_t v=u+t; p->c[j]=v>=Q?v-Q:v; } }
}
static void intt(poly *p) {
  int k=256; for (int len=1;len<256;len<<=1) for (int s=0;s<N;s+=2*len) { int32_t z=Q-zt[--k];
    for (int j=s;j<s+len;j++) { int32_t t=p->c[j],u=p->c[j+len]; int32_t v=t+u; p->c[j]=v>=Q?v-Q:v; p->c[j+len]=mulq(z,pos(t-u)); } }
  int32_t f=powq(256,Q-2); for (int j=0;j<N;j++) p->c[j]=mulq(f,p->c[j]);
}
static int32_t cmod(int32_t x) { return x>(Q-1)/2?x-Q:x; } /* centred */
static void padd(poly *r,const poly *a,const poly *b){for(int i=0;i<N;i++){int32_t v=a->c[i]+b->c[i];r->c[i]=v>=Q?v-Q:v;}}
static void psub(poly *r,const poly *a,const poly *b){for(int i=0;i<N;i++)r->c[i]=pos(a->c[i]-b->c[i]);}
static void pmul(poly *r,const poly *a,const poly *b){for(int i=0;i<N;i++)r->c[i]=mulq(a->c[i],b->c[i]);}
static int32_t norm(const poly *a){int32_t m=0;for(int i=0;i<N;i++){int32_t v=cmod(a->c[i]);if(v<0)v=-v;if(v>m)m=v;}return m;}
#ifdef REF_MUT
/* |a[i]| >= b for some coefficient of n polynomials, as one decision; base = first mutant number */
static int big(const poly *a,int n,int32_t b,int base){ int r=0,gp=0,gn=0,lo=0,no0=0,noz=0,nolast=0; (void)base; for(int i=0;i<n;i++)for(int k=0;k<N;k++){int32_t v=cmod(a[i].c[k]),m=v<0?-v:v; r|=m>=b; gp|=v>0?m>b:m>=b; gn|=v<0?m>b:m>=b; lo|=m>=b-1; if(k)no0|=m>=b; if(k<N-1)noz|=m>=b; if(i<n-1)nolast|=m>=b; }
  int t=r; t=MUT(base,r,gp)!=r?gp:t; t=MUT(base+1,r,gn)!=r?gn:t; t=MUT(base+2,r,lo)!=r?lo:t; t=MUT(base+3,r,no0)!=r?no0:t; t=MUT(base+4,r,noz)!=r?noz:t; t=MUT(base+5,r,nolast)!=r?nolast:t; return t; }
#else
static int big(const poly *a,int n,int32_t b,int base){ (void)base; for(int i=0;i<n;i++)if(norm(&a[i])>=b)return 1; return 0; }
#endif
static void bits_put(uint8_t *o,const uint32_t *v,int n,int w){memset(o,0,(size_t)n*w/8);size_t b=0;for(int i=0;i<n;i++)for(int k=0;k<w;k++,b++)o[b>>3]|=(uint8_t)(((v[i]>>k)&1)<<(b&7));}
static void bits_get(uint32_t *v,const uint8_t *in,int n,int w){size_t b=0;for(int i=0;i<n;i++){v[i]=0;for(int k=0;k<w;k++,b++)v[i]|=(uint32_t)((in[b>>3]>>(b&7))&1)<<k;}}
static void pack_c(uint8_t *o,const poly *a,int32_t top,int w){uint32_t v[N];for(int i=0;i<N;i++)v[i]=(uint32_t)(top-cmod(a->c[i]));bits_put(o,v,N,w);}
static void unpack_c(poly *a,const uint8_t *in,int32_t top,int w){uint32_t v[N];bits_get(v,in,N,w);for(int i=0;i<N;i++){int32_t t=top-(int32_t)v[i];a->c[i]=pos(t);}}
static void expandA(poly A[K][L],const uint8_t *rho){
  for(int i=0;i<K;i++)for(int j=0;j<L;j++){ ref_sponge s; uint8_t t[2]={(uint8_t)j,(uint8_t)i},b[3]; ref_sp_init(&s,168,0x1f); ref_sp_absorb(&s,rho,32); ref_sp_absorb(&s,t,2);
    for(int n=0;n<N;){ ref_sp_squeeze(&s,b,3); uint32_t z=(b[0]|b[1]<<8|b[2]<<16)&0x7fffff; if(MUT(6,MUT(0,z<Q,z<=Q),z<Q-1)&&MUT(1,1,z!=Q-1)&&MUT(2,1,z!=0))A[i][j].c[n++]=(int32_t)z; } }
}
static void eta_poly(poly *p,const uint8_t *rp,unsigned nonce){
  ref_sponge s; uint8_t t[2]={(uint8_t)nonce,(uint8_t)(nonce>>8)},b; ref_sp_init(&s,136,0x1f); ref_sp_absorb(&s,rp,64); ref_sp_absorb(&s,t,2);
  for(int n=0;n<N;){ ref_sp_squeeze(&s,&b,1); int h[2]={b&15,b>>4}; for(int k=0;k<2&&n<N;k++) if(h[k]<15) p->c[n++]=pos(2-h[k]%5); }
}
static void mask_poly(poly *p,const uint8_t *rp,unsigned nonce){
  ref_sponge s; uint8_t t[2]={(uint8_t)nonce,(uint8_t)(nonce>>8)},b[576]; ref_sp_init(&s,136,0x1f); ref_sp_absorb(&s,rp,64); ref_sp_absorb(&s,t,2); ref_sp_squeeze(&s,b,576);
  unpack_c(p,b,G1,18);
}
static void ball(poly *c,const uint8_t *ct){
  ref_sponge s; uint8_t sg[8],b; ref_sp_init(&s,136,0x1f); ref_sp_absorb(&s,ct,32); ref_sp_squeeze(&s,sg,8); memset(c,0,sizeof *c); int k=0,nb=0;
  for(int i=N-TAU;i<N;i++,k++){ do {ref_sp_squeeze(&s,&b,1);nb++;} while(MUT(3,b>i,b>=i)); b=MUT(4,b,(uint8_t)(nb>52?b^1:b));  c->c[i]=c->c[b]; c->c[b]=(sg[k>>3]>>(k&7))&1?Q-1:1; }
}
/* Decompose with alpha = 2*G2 */
static int32_t decomp(int32_t r,int32_t *r0){ int32_t a=2*G2,t=r%a; if(MUT(9,MUT(8,t>G2,t>=G2),t>G2+1))t-=a; if(MUT(10,r-t==Q-1,r-t==Q-1&&t!=0)&&MUT(11,1,r!=Q-G2)&&MUT(12,1,r!=Q-2)){*r0=MUT(13,t-1,t);return 0;} *r0=t; return (r-t)/a; }
void ref_dil_keypair(uint8_t *pk,uint8_t *sk,const uint8_t seed[32]){
  uint8_t x[128]; ref_shake256(x,128,seed,32); static _Thread_local poly A[K][L]; expandA(A,x); poly s1[L],s2[K],s1h[L];
  for(int i=0;i<L;i++){eta_poly(&s1[i],x+32,i);s1h[i]=s1[i];ntt(&s1h[i]);} for(int i=0;i<K;i++)eta_poly(&s2[i],x+32,L+i);
  memcpy(pk,x,32); memcpy(sk,x,32); memcpy(sk+32,x+96,32);
  for(int i=0;i<K;i++){ poly t,u; memset(&t,0,sizeof t); for(int j=0;j<L;j++){pmul(&u,&A[i][j],&s1h[j]);padd(&t,&t,&u);} intt(&t); padd(&t,&t,&s2[i]);
    uint32_t t1[N]; poly t0; for(int n=0;n<N;n++){ int32_t lo=t.c[n]&8191; if(MUT(5,lo>4096,lo>=4096))lo-=8192; t1[n]=(uint32_t)((t.c[n]-lo)>>D); t0.c[n]=pos(lo); }
    bits_put(pk+32+320*i,t1,N,10); pack_c(sk+128+96*8+416*i,&t0,4096,13); }
  ref_shake256(sk+64,64,pk,REF_DIL_PK);
  for(int i=0;i<L;i++)pack_c(sk+128+96*i,&s1[i],ETA,3); for(int i=0;i<K;i++)pack_c(sk+128+96*(4+i),&s2[i],ETA,3);
}
int ref_dil_sign(uint8_t *sig,const uint8_t *m,size_t n,const uint8_t *sk,const ref_dil_opts *o,ref_dil_ev *ev){
  ref_dil_ev dummy; if(!ev)ev=&dummy; memset(ev,0,sizeof *ev); int zb=o&&o->max_z?o->max_z:G1-BETA, zmin=o?o->min_z:0;
  uint8_t mu[64],rp[64],kb[32+32+64]; ref_sponge s; ref_sp_init(&s,136,0x1f); ref_sp_absorb(&s,sk+64,64); ref_sp_absorb(&s,m,n); ref_sp_squeeze(&s,mu,64);
  memcpy(kb,sk+32,32); if(o&&o->rnd)memcpy(kb+32,o->rnd,32);else memset(kb+32,0,32); memcpy(kb+64,mu,64); ref_shake256(rp,64,kb,128);
  static _Thread_local poly A[K][L]; expandA(A,sk); poly s1[L],s2[K],t0[K];
  for(int i=0;i<L;i++){unpack_c(&s1[i],sk+128+96*i,ETA,3);ntt(&s1[i]);}
  for(int i=0;i<K;i++){unpack_c(&s2[i],sk+128+96*(4+i),ETA,3);ntt(&s2[i]);unpack_c(&t0[i],sk+128+768+416*i,4096,13);ntt(&t0[i]);}
  for(unsigned kap=0;;kap++){
    if(o&&o->max_attempts&&kap>=(unsigned)o->max_attempts)return -1;
    ev->attempts++; poly y[L],yh[L],w1[K],w0[K],z[L],c; uint8_t wb[K*192],ct[32];
    for(int i=0;i<L;i++){mask_poly(&y[i],rp,MUT(16,MUT(15,MUT(14,kap*L+(unsigned)i,(kap*L+(unsigned)i)&255),(kap*L+(unsigned)i)&127),(kap*L+(unsigned)i)&63));if(o&&o->fz_on&&o->fz_poly==i)y[i].c[o->fz_idx]=pos(o->fz_y);yh[i]=y[i];ntt(&yh[i]);}
    for(int i=0;i<K;i++){ poly w,u; memset(&w,0,sizeof w); for(int j=0;j<L;j++){pmul(&u,&A[i][j],&yh[j]);padd(&w,&w,&u);} intt(&w);
      uint32_t v[N]; for(int k=0;k<N;k++){ int32_t r0; w1[i].c[k]=decomp(w.c[k],&r0); w0[i].c[k]=pos(r0); v[k]=(uint32_t)w1[i].c[k]; } bits_put(wb+192*i,v,N,6); }
    ref_sp_init(&s,136,0x1f); ref_sp_absorb(&s,mu,64); ref_sp_absorb(&s,wb,sizeof wb); ref_sp_squeeze(&s,ct,32); if(o&&o->ctxor)for(int q=0;q<32;q++)ct[q]^=o->ctxor[q]; ball(&c,ct); ntt(&c);
    int32_t zm=0; for(int i=0;i<L;i++){pmul(&z[i],&c,&s1[i]);intt(&z[i]);padd(&z[i],&z[i],&y[i]);int32_t fv=0;if(o&&o->fz_on&&o->fz_poly==i){fv=z[i].c[o->fz_idx];int32_t q=cmod(fv);if(q<0)q=-q;if(q<o->fz_lo||q>o->fz_hi)zm=Q;z[i].c[o->fz_idx]=0;}int32_t t=norm(&z[i]);if(t>zm)zm=t;if(o&&o->fz_on&&o->fz_poly==i)z[i].c[o->fz_idx]=fv;}
    if(zm==G1-BETA)ev->z_edge_hi++; if(zm==G1-BETA-1)ev->z_edge_lo++;
    if((o&&(o->max_z||o->fz_on)?zm>=zb:big(z,L,G1-BETA,20))||zm<zmin){ev->rej_z++;continue;}
    int32_t wm=0; for(int i=0;i<K;i++){poly u;pmul(&u,&c,&s2[i]);intt(&u);psub(&w0[i],&w0[i],&u);int32_t t=norm(&w0[i]);if(t>wm)wm=t;}
    if(wm==G2-BETA)ev->w0_edge_hi++; if(wm==G2-BETA-1)ev->w0_edge_lo++;
    if(big(w0,K,G2-BETA,26)){ev->rej_w0++;continue;}
    int32_t cm=0; unsigned cnt=0; uint8_t h[OMEGA+K]={0}; int over=0; poly ct0[K]; for(int i=0;i<K;i++){pmul(&ct0[i],&c,&t0[i]);intt(&ct0[i]);int32_t t=norm(&ct0[i]);if(t>cm)cm=t;}
    if(big(ct0,K,G2,32)){ev->rej_ct0++;continue;}
    for(int i=0;i<K;i++){ for(int k=0;k<N;k++){ int32_t a0=cmod(w0[i].c[k])+cmod(ct0[i].c[k]); if(a0==-G2)ev->hint_eq++;
        int hb=a0>G2||a0<-G2||(a0==-G2&&w1[i].c[k]!=0);
        hb=MUT(40,hb,hb||a0==G2); hb=MUT(41,hb,a0>G2+1||a0<-G2||(a0==-G2&&w1[i].c[k]!=0)); hb=MUT(42,hb,a0>G2||a0<-G2-1||(a0==-G2&&w1[i].c[k]!=0)); hb=MUT(43,hb,a0>G2||a0<=-G2); hb=MUT(44,hb,a0>G2||a0<-G2); hb=MUT(45,hb,a0>G2||a0<-G2||(a0==-G2&&w1[i].c[k]==0)); hb=MUT(46,hb,hb&&!(k==255&&i==3)); hb=MUT(47,hb,hb&&!(k==0&&i==0));
        if(hb){ if(cnt<OMEGA)h[cnt]=(uint8_t)k; else over=1; cnt++; } } h[OMEGA+i]=(uint8_t)cnt; }
    over=MUT(48,over,cnt>=OMEGA); over=MUT(49,over,cnt>OMEGA+1); if(over){ev->rej_hint++;continue;}
    memcpy(sig,ct,32); for(int i=0;i<L;i++){ uint32_t v[N]; for(int k=0;k<N;k++)v[k]=(uint32_t)(G1-cmod(z[i].c[k])); bits_put(sig+32+576*i,v,N,18);} memcpy(sig+32+2304,h,OMEGA+K);
    ev->z_max=zm; ev->hints=cnt; return 0;
  }
}
int ref_dil_verify(const uint8_t *sig,const uint8_t *m,size_t n,const uint8_t *pk,int relax){
  poly z[L]; uint8_t hb[K][N]; memset(hb,0,sizeof hb); const uint8_t *h=sig+32+2304; unsigned k=0;
  for(int i=0;i<L;i++)unpack_c(&z[i],sig+32+576*i,G1,18);
  for(int i=0;i<K;i++){ unsigned e=h[OMEGA+i]; if(MUT(54,e>OMEGA,e>=OMEGA))return 0; if(e<k){if(!(relax&REF_DIL_NO_HINTFMT))return 0; continue;}
    for(unsigned j=k;j<e;j++){ if(j>k&&h[j]<=h[j-1]&&!(relax&REF_DIL_NO_HINTFMT))return 0; hb[i][h[j]]=1; } k=e; }
  for(;k<OMEGA;k++)if(h[k]&&!(relax&REF_DIL_NO_HINTFMT))return 0;
  if(!(relax&REF_DIL_NO_Z))for(int i=0;i<L;i++)if(norm(&z[i])>=MUT(50,G1-BETA,G1-BETA-1))return 0;
  uint8_t tr[64],mu[64],wb[K*192],ct[32]; ref_shake256(tr,64,pk,REF_DIL_PK); ref_sponge s; ref_sp_init(&s,136,0x1f); ref_sp_absorb(&s,tr,64); ref_sp_absorb(&s,m,n); ref_sp_squeeze(&s,mu,64);
  static _Thread_local poly A[K][L]; expandA(A,pk); poly c; ball(&c,sig); ntt(&c); for(int i=0;i<L;i++)ntt(&z[i]);
  for(int i=0;i<K;i++){ poly w,u,t; memset(&w,0,sizeof w); for(int j=0;j<L;j++){pmul(&u,&A[i][j],&z[j]);padd(&w,&w,&u);}
    uint32_t v[N]; bits_get(v,pk+32+320*i,N,10); for(int q=0;q<N;q++)t.c[q]=(int32_t)(v[q]<<D); for(int q=0;q<N;q++)t.c[q]%=Q; ntt(&t); pmul(&t,&c,&t); psub(&w,&w,&t); intt(&w);
    for(int q=0;q<N;q++){ int32_t r0,r1=decomp(w.c[q],&r0); if(hb[i][q]) r1=r0>0?MUT(51,(r1+1)%44,r1+1):MUT(52,(r1+43)%44,r1-1); r1=MUT(53,r1,r1&31); v[q]=(uint32_t)r1; } bits_put(wb+192*i,v,N,6); }
  ref_sp_init(&s,136,0x1f); ref_sp_absorb(&s,mu,64); ref_sp_absorb(&s,wb,sizeof wb); ref_sp_squeeze(&s,ct,32);
  return !memcmp(ct,sig,32);
}
