#include "ref.h"
#include <stdlib.h>
#include <string.h>
static uint32_t ld(const uint8_t *p) { return p[0]|(uint32_t)p[1]<<8|(uint32_t)p[2]<<16|(uint32_t)p[3]<<24; }
static void st(uint8_t *p, uint32_t v) { for (int i=0;i<4;i++) p[i]=(uint8_t)(v>>(8*i)); }
static uint32_t rl(uint32_t x,int n){return x<<n|x>>(32-n);}
static void qr(uint32_t*a,uint32_t*b,uint32_t*c,uint32_t*d){*b^=rl(*a+*d,7);*c^=rl(*b+*a,9);*d^=rl(*c+*b,13);*a^=rl(*d+*c,18);}
static void rounds(uint32_t x[16]) {
  for (int i=0;i<10;i++) {
    qr(x+0,x+4,x+8,x+12); qr(x+5,x+9,x+13,x+1); qr(x+10,x+14,x+2,x+6); qr(x+15,x+3,x+7,x+11);
    qr(x+0,x+1,x+2,x+3); qr(x+5,x+6,x+7,x+4); qr(x+10,x+11,x+8,x+9); qr(x+15,x+12,x+13,x+14);
  }
}
static void load(uint32_t x[16], const uint8_t in[16], const uint8_t k[32], const uint8_t c[16]) {
  for (int i=0;i<4;i++) { x[5*i]=ld(c+4*i); x[1+i]=ld(k+4*i); x[6+i]=ld(in+4*i); x[11+i]=ld(k+16+4*i); }
}
void ref_salsa20_core(uint8_t out[64], const uint8_t in[16], const uint8_t k[32], const uint8_t c[16]) {
  uint32_t x[16],y[16]; load(x,in,k,c); memcpy(y,x,64); rounds(y); for (int i=0;i<16;i++) st(out+4*i,x[i]+y[i]);
}
void ref_hsalsa20(uint8_t out[32], const uint8_t in[16], const uint8_t k[32], const uint8_t c[16]) {
  uint32_t x[16]; load(x,in,k,c); rounds(x);
  static const int o[8]={0,5,10,15,6,7,8,9}; for (int i=0;i<8;i++) st(out+4*i,x[o[i]]);
}
static const uint8_t SIG[17]="expand 32-byte k";
void ref_salsa20_stream(uint8_t *out, size_t n, const uint8_t nonce[8], const uint8_t k[32]) {
  uint8_t in[16]={0},b[64]; memcpy(in,nonce,8); uint64_t ctr=0;
  while (n) { for (int i=0;i<8;i++) in[8+i]=(uint8_t)(ctr>>(8*i)); ref_salsa20_core(b,in,k,SIG); size_t t=n<64?n:64; memcpy(out,b,t); out+=t; n-=t; ctr++; }
}
void ref_xsalsa20_stream(uint8_t *out, size_t n, const uint8_t nonce[24], const uint8_t k[32]) {
  uint8_t s[32]; ref_hsalsa20(s,nonce,k,SIG); ref_salsa20_stream(out,n,nonce+16,s);
}
typedef unsigned __int128 u128;
void ref_poly1305(uint8_t out[16], const uint8_t *m, size_t n, const uint8_t key[32]) {
  /* 130-bit accumulator in limbs of 26 bits would be usual; use 3x64 plain */
  uint64_t r0=0,r1=0,s0=0,s1=0,h0=0,h1=0,h2=0;
  for (int i=0;i<8;i++) { r0|=(uint64_t)key[i]<<(8*i); r1|=(uint64_t)key[8+i]<<(8*i); s0|=(uint64_t)key[16+i]<<(8*i); s1|=(uint64_t)key[24+i]<<(8*i); }
  r0&=0x0ffffffc0fffffffULL; r1&=0x0ffffffc0ffffffcULL;
  while (n) {
    uint8_t b[17]={0}; size_t t=n<16?n:16; memcpy(b,m,t); b[t]=1; m+=t; n-=t;
    uint64_t c0=0,c1=0; for (int i=0;i<8;i++) { c0|=(uint64_t)b[i]<<(8*i); c1|=(uint64_t)b[8+i]<<(8*i); }
    u128 x=(u128)h0+c0; h0=(uint64_t)x; x=(u128)h1+c1+(uint64_t)(x>>64); h1=(uint64_t)x; h2+=b[16]+(uint64_t)(x>>64);
    /* h *= r mod 2^130-5 */
    u128 d0=(u128)h0*r0, d1=(u128)h0*r1, d1b=(u128)h1*r0, d2=(u128)h1*r1; uint64_t e1=h2*r0, e2=h2*r1; /* h2 <= 7 */
    uint64_t t0=(uint64_t)d0; u128 a=(d0>>64)+(uint64_t)d1+(uint64_t)d1b; uint64_t t1=(uint64_t)a;
    a=(a>>64)+(d1>>64)+(d1b>>64)+(uint64_t)d2+e1; uint64_t t2=(uint64_t)a; uint64_t t3=(uint64_t)(a>>64)+(uint64_t)(d2>>64)+e2;
    h2=t2&3; u128 hi=((u128)t3<<64|t2)>>2; u128 f=(u128)(uint64_t)hi*5; uint64_t hi1=(uint64_t)(hi>>64)*5;
    x=(u128)t0+(uint64_t)f; h0=(uint64_t)x; x=(u128)t1+(uint64_t)(f>>64)+hi1+(uint64_t)(x>>64); h1=(uint64_t)x; h2+=(uint64_t)(x>>64);
  }
  for (int k=0;k<2;k++) { /* subtract p while h >= p */
    u128 x=(u128)h0+5; uint64_t g0=(uint64_t)x; x=(u128)h1+(uint64_t)(x>>64); uint64_t g1=(uint64_t)x; uint64_t g2=h2+(uint64_t)(x>>64);
    if (g2>=4) { h0=g0; h1=g1; h2=g2-4; }
  }
  u128 x=(u128)h0+s0; h0=(uint64_t)x; h1=h1+s1+(uint64_t)(x>>64);
  for (int i=0;i<8;i++) { out[i]=(uint8_t)(h0>>(8*i)); out[8+i]=(uint8_t)(h1>>(8*i)); }
}
void ref_secretbox(uint8_t *c, const uint8_t *m, size_t d, const uint8_t n[24], const uint8_t k[32]) {
  uint8_t *s=malloc(d); ref_xsalsa20_stream(s,d,n,k);
  for (size_t i=32;i<d;i++) c[i]=m[i]^s[i];
  ref_poly1305(c+16,c+32,d-32,s); memset(c,0,16); free(s);
}
void ref_box_beforenm(uint8_t k[32], const uint8_t pk[32], const uint8_t sk[32]) {
  uint8_t s[32],z[16]={0}; ref_x25519(s,sk,pk); ref_hsalsa20(k,z,s,SIG);
}
