#include "ref.h"
#include <string.h>
typedef unsigned __int128 u128;
typedef struct { uint64_t v[5]; } fe; /* radix 2^51 */
#define M51 ((1ULL<<51)-1)
static fe fe_of(uint64_t x) { fe r = {{x,0,0,0,0}}; return r; }
static fe carry(u128 t[5]) {
  fe r; u128 c = 0;
  for (int i = 0; i < 5; i++) { t[i] += c; r.v[i] = (uint64_t)t[i] & M51; c = t[i] >> 51; }
  c = (u128)r.v[0] + 19*c; r.v[0] = (uint64_t)c & M51; r.v[1] += (uint64_t)(c >> 51);
  return r;
}
static fe add(fe a, fe b) { u128 t[5]; for (int i=0;i<5;i++) t[i] = (u128)a.v[i]+b.v[i]; return carry(t); }
static fe sub(fe a, fe b) { /* a + 4p - b; limbs of b < 2^52 */
  static const uint64_t P4[5] = {4*(M51-18),4*M51,4*M51,4*M51,4*M51};
  u128 t[5]; for (int i=0;i<5;i++) t[i] = (u128)a.v[i]+P4[i]-b.v[i]; return carry(t); }
static fe mul(fe a, fe b) {
  u128 t[5] = {0};
  for (int i=0;i<5;i++) for (int j=0;j<5;j++) { u128 x = (u128)a.v[i]*b.v[j]; int k=i+j; if (k>=5) { k-=5; x*=19; } t[k]+=x; }
  return carry(t);
}
static fe sqr(fe a) { return mul(a,a); }
static void enc(uint8_t o[32], fe a) {
  u128 t[5]; for (int i=0;i<5;i++) t[i]=a.v[i];
  a = carry(t); for (int i=0;i<5;i++) t[i]=a.v[i]; a = carry(t);
  /* now < 2^255 + small; subtract p if >= p */
  for (int k=0;k<2;k++) {
    uint64_t q = (a.v[0]+19)>>51; for (int i=1;i<5;i++) q=(a.v[i]+q)>>51;
    if (q) { uint64_t c=19; for (int i=0;i<5;i++){ a.v[i]+=c; c=a.v[i]>>51; a.v[i]&=M51; } }
  }
  uint64_t w[4] = { a.v[0]|a.v[1]<<51, a.v[1]>>13|a.v[2]<<38, a.v[2]>>26|a.v[3]<<25, a.v[3]>>39|a.v[4]<<12 };
  for (int i=0;i<32;i++) o[i]=(uint8_t)(w[i/8]>>(8*(i%8)));
}
static fe dec(const uint8_t s[32]) {
  uint64_t w[4]={0}; for (int i=0;i<32;i++) w[i/8] |= (uint64_t)s[i]<<(8*(i%8));
  fe r={{ w[0]&M51, (w[0]>>51|w[1]<<13)&M51, (w[1]>>38|w[2]<<26)&M51, (w[2]>>25|w[3]<<39)&M51, (w[3]>>12)&M51 }};
  return r;
}
static int eq(fe a, fe b) { uint8_t x[32],y[32]; enc(x,a); enc(y,b); return !memcmp(x,y,32); }
/* a^e, e little endian 32 bytes */
static fe powe(fe a, const uint8_t e[32]) { fe r=fe_of(1); for (int i=255;i>=0;i--) { r=sqr(r); if (e[i/8]>>(i%8)&1) r=mul(r,a);} return r; }
static fe inv(fe a) { uint8_t e[32]; memset(e,0xff,32); e[0]=0xeb; e[31]=0x7f; return powe(a,e); } /* p-2 */
static fe cD, cI; static int init;
typedef struct { fe X,Y,Z,T; } pt;
static pt B;
/* general doubling/adding with the unified a=-1 formulas (RFC 8032 5.1.4) */
static pt padd(pt p, pt q) {
  fe a=mul(sub(p.Y,p.X),sub(q.Y,q.X)), b=mul(add(p.Y,p.X),add(q.Y,q.X));
  fe c=mul(mul(p.T,add(cD,cD)),q.T), d=mul(add(p.Z,p.Z),q.Z);
  fe e=sub(b,a), f=sub(d,c), g=add(d,c), h=add(b,a);
  pt r={mul(e,f),mul(g,h),mul(f,g),mul(e,h)}; return r;
}
static pt pdbl(pt p) {
  fe a=sqr(p.X), b=sqr(p.Y), c=sqr(p.Z); c=add(c,c);
  fe h=add(a,b), e=sub(h,sqr(add(p.X,p.Y))), g=sub(a,b), f=add(c,g);
  pt r={mul(e,f),mul(g,h),mul(f,g),mul(e,h)}; return r;
}
static pt ident(void) { pt r={fe_of(0),fe_of(1),fe_of(1),fe_of(0)}; return r; }
static pt smul(const uint8_t s[32], pt p) {
  pt t[16]; t[0]=ident(); for (int i=1;i<16;i++) t[i]=padd(t[i-1],p);
  pt r=ident();
  for (int i=63;i>=0;i--) { for (int k=0;k<4;k++) r=pdbl(r); r=padd(r,t[(s[i/2]>>(4*(i&1)))&15]); }
  return r;
}
static void penc(uint8_t o[32], pt p) { fe z=inv(p.Z); uint8_t x[32]; enc(x,mul(p.X,z)); enc(o,mul(p.Y,z)); o[31]|=(uint8_t)((x[0]&1)<<7); }
static int pdec(pt *r, const uint8_t s[32]) {
  fe y=dec(s), y2=sqr(y), u=sub(y2,fe_of(1)), v=add(mul(cD,y2),fe_of(1));
  /* candidate x = u v^3 (u v^7)^((p-5)/8) */
  fe v3=mul(sqr(v),v), v7=mul(sqr(v3),v);
  uint8_t e[32]; memset(e,0xff,32); e[0]=0xfd; e[31]=0x0f;
  fe x=mul(mul(u,v3),powe(mul(u,v7),e));
  fe vx2=mul(v,sqr(x));
  if (!eq(vx2,u)) { if (eq(vx2,sub(fe_of(0),u))) x=mul(x,cI); else return 0; }
  uint8_t b[32]; enc(b,x); if ((b[0]&1)!=(s[31]>>7)) x=sub(fe_of(0),x);
  r->X=x; r->Y=y; r->Z=fe_of(1); r->T=mul(x,y); return 1;
}
__attribute__((constructor)) static void setup(void) {
  if (init) return; init=1;
  cD=mul(sub(fe_of(0),fe_of(121665)),inv(fe_of(121666)));
  uint8_t e[32]; memset(e,0xff,32); e[0]=0xfb; e[31]=0x1f; cI=powe(fe_of(2),e); /* 2^((p-1)/4) */
  uint8_t b[32]; memset(b,0x66,32); b[0]=0x58; pdec(&B,b);
}
/* scalars mod L = 2^252 + c */
static const uint8_t Lb[32]={0xed,0xd3,0xf5,0x5c,0x1a,0x63,0x12,0x58,0xd6,0x9c,0xf7,0xa2,0xde,0xf9,0xde,0x14,[31]=0x10};
typedef struct { uint64_t w[5]; } sc;
static sc Lsc(void) { sc l={{0}}; for (int i=0;i<32;i++) l.w[i/8]|=(uint64_t)Lb[i]<<(8*(i%8)); return l; }
static int sc_ge(sc a, sc b) { for (int i=4;i>=0;i--) if (a.w[i]!=b.w[i]) return a.w[i]>b.w[i]; return 1; }
static sc sc_sub(sc a, sc b) { u128 br=0; for (int i=0;i<5;i++) { u128 t=(u128)a.w[i]-b.w[i]-br; a.w[i]=(uint64_t)t; br=(t>>64)&1; } return a; }
static void sc_reduce(uint8_t o[32], const uint8_t *in, int n) {
  sc r={{0}}, l=Lsc();
  for (int i=n-1;i>=0;i--) for (int b=7;b>=0;b--) {
    for (int k=4;k>0;k--) r.w[k]=r.w[k]<<1|r.w[k-1]>>63;
    r.w[0]=r.w[0]<<1|((in[i]>>b)&1);
    if (sc_ge(r,l)) r=sc_sub(r,l);
  }
  for (int i=0;i<32;i++) o[i]=(uint8_t)(r.w[i/8]>>(8*(i%8)));
}
static void sc_muladd(uint8_t o[32], const uint8_t a[32], const uint8_t b[32], const uint8_t c[32]) { /* ab+c */
  uint32_t t[65]={0}; for (int i=0;i<32;i++) t[i]=c[i];
  for (int i=0;i<32;i++) for (int j=0;j<32;j++) t[i+j]+=(uint32_t)a[i]*b[j];
  uint8_t x[66]; uint32_t cy=0; for (int i=0;i<65;i++) { cy+=t[i]; x[i]=(uint8_t)cy; cy>>=8; } x[65]=(uint8_t)cy;
  sc_reduce(o,x,66);
}
static void expand(uint8_t h[64], const uint8_t seed[32]) { ref_sha512(h,seed,32); h[0]&=0xf8; h[31]=(h[31]&0x7f)|0x40; }
void ref_ed_keypair(uint8_t pk[32], uint8_t sk[64], const uint8_t seed[32]) {
  uint8_t h[64]; expand(h,seed); penc(pk,smul(h,B)); memmove(sk,seed,32); memcpy(sk+32,pk,32);
}
#include <stdlib.h>
static void hash3(uint8_t o[32], const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t n) {
  uint8_t *t=malloc(64+n+1), h[64]; size_t k=0;
  memcpy(t,a,32); k=32; if (b) { memcpy(t+32,b,32); k=64; } if (n) memcpy(t+k,m,n);
  ref_sha512(h,t,k+n); free(t); sc_reduce(o,h,64);
}
void ref_ed_sign_ex(uint8_t sig[64], const uint8_t *m, size_t n, const uint8_t sk[64], const uint8_t *r32, const uint8_t *Rforce, const uint8_t *Rxor) {
  uint8_t h[64],r[32],k[32],R[32],S[32]; expand(h,sk);
  if (r32) sc_reduce(r,r32,32); else hash3(r,h+32,NULL,m,n);
  if (Rforce) memcpy(R,Rforce,32); else penc(R,smul(r,B));
  if (Rxor) for (int i=0;i<32;i++) R[i]^=Rxor[i];
  hash3(k,R,sk+32,m,n); sc_muladd(S,k,h,r); memcpy(sig,R,32); memcpy(sig+32,S,32);
}
void ref_ed_sign(uint8_t sig[64], const uint8_t *m, size_t n, const uint8_t sk[64]) { ref_ed_sign_ex(sig,m,n,sk,NULL,NULL,NULL); }
int ref_ed_verify(const uint8_t sig[64], const uint8_t *m, size_t n, const uint8_t pk[32]) {
  sc s={{0}}; for (int i=0;i<32;i++) s.w[i/8]|=(uint64_t)sig[32+i]<<(8*(i%8));
  if (sc_ge(s,Lsc())) return 0;
  pt A; if (!pdec(&A,pk)) return 0;
  uint8_t k[32],t[32]; hash3(k,sig,pk,m,n);
  A.X=sub(fe_of(0),A.X); A.T=sub(fe_of(0),A.T);
  penc(t,padd(smul(sig+32,B),smul(k,A)));
  return !memcmp(t,sig,32);
}
int ref_ed_add_L(uint8_t s[32], int k) {
  for (;k>0;k--) { unsigned c=0; for (int i=0;i<32;i++) { c+=s[i]+Lb[i]; s[i]=(uint8_t)c; c>>=8; } if (c) return 0; }
  return 1;
}
void ref_x25519(uint8_t out[32], const uint8_t scalar[32], const uint8_t u[32]) {
  uint8_t k[32]; memcpy(k,scalar,32); k[0]&=0xf8; k[31]=(k[31]&0x7f)|0x40;
  fe x1=dec(u),x2=fe_of(1),z2=fe_of(0),x3=x1,z3=fe_of(1); int sw=0;
  for (int t=254;t>=0;t--) {
    int b=k[t/8]>>(t%8)&1; if (b!=sw) { fe q=x2;x2=x3;x3=q; q=z2;z2=z3;z3=q; } sw=b;
    fe a=add(x2,z2),aa=sqr(a),bb_=sub(x2,z2),bb=sqr(bb_),e=sub(aa,bb),c=add(x3,z3),d=sub(x3,z3),da=mul(d,a),cb=mul(c,bb_);
    x3=sqr(add(da,cb)); z3=mul(x1,sqr(sub(da,cb))); x2=mul(aa,bb); z2=mul(e,add(aa,mul(fe_of(121665),e)));
  }
  if (sw) { x2=x3; z2=z3; }
  enc(out,mul(x2,inv(z2)));
}
