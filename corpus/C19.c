//// sum mon=tbf
int f(int n,int acc){ printf("%d\n",acc); if(n<=0) return acc; return f(n-1,acc+n); }
int main(int argc,char**argv){ int n=in_int()&15; int a=in_int()&1023; printf("r %d\n",f(n,a)); return 0; }
//// gcd mon=tbf
unsigned int g(unsigned int a,unsigned int b){ printf("%u %u\n",a,b); if(b==0) return a; return g(b,a%b); }
int main(int argc,char**argv){ unsigned int a=in_uint()&31; unsigned int b=in_uint()&31; printf("r %u\n",g(a,b)); return 0; }
//// longparams mon=tbf
long f(long a,char c,long s,unsigned int u,int n){ printf("%ld %d %ld %u\n",a,c,s,u); if(n==0) return a+c+s+u; return f(a+c,c+1,s-1,u*3,n-1); }
int main(int argc,char**argv){ long a=in_long()&65535; char c=in_char()&31; int n=in_int()&7; printf("r %ld\n",f(a,c,100,7,n)); return 0; }
//// swapargs mon=tbf
int f(int a,int b,int n){ printf("%d %d\n",a,b); if(n==0) return a-b; return f(b,a,n-1); }
int main(int argc,char**argv){ int a=in_int()&4095; int b=in_int()&4095; int n=in_int()&7; printf("r %d\n",f(a,b,n)); return 0; }
//// rotate mon=tbf
int f(int a,int b,int c,int d,int n){ printf("%d %d %d %d\n",a,b,c,d); if(n<=0) return a; return f(b,c,d,a,n-1); }
int main(int argc,char**argv){ int n=in_int()&7; printf("r %d\n",f(1,2,3,in_int(),n)); return 0; }
//// twosites mon=tbf
int f(int n,int a){ printf("%d\n",n); if(n<=0) return a; if(n&1) return f(n-1,a+3); return f(n/2,a*2); }
int main(int argc,char**argv){ int n=in_int()&31; printf("r %d\n",f(n,1)); return 0; }
//// ifelse mon=tbf
int f(int n,int a){ printf("%d\n",n); if(n<=0){ return a; } else if(n%3==0){ return f(n-3,a+1); } else { return f(n-1,a-1); } }
int main(int argc,char**argv){ int n=in_int()&15; printf("r %d\n",f(n,in_int()&255)); return 0; }
//// inswitch mon=tbf
int f(int n,int a){ printf("%d\n",n); switch(n&3){ case 0: if(n==0) return a; return f(n-1,a); case 1: return f(n-1,a+1); default: return f(n-2,a+5);} }
int main(int argc,char**argv){ int n=in_int()&15; printf("r %d\n",f(n,0)); return 0; }
//// inloop mon=tbf
int f(int n,int a){ printf("%d %d\n",n,a); while(n>0){ if(n&1) return f(n-1,a+1); n=n-2; } return a; }
int main(int argc,char**argv){ int n=in_int()&15; printf("r %d\n",f(n,0)); return 0; }
//// locals mon=tbf
int f(int n,int a){ int x=a*2; int y=x+n; printf("%d %d\n",x,y); if(n<=0) return y; return f(n-1,y); }
int main(int argc,char**argv){ int n=in_int()&7; int a=in_int()&63; printf("r %d\n",f(n,a)); return 0; }
//// constargs mon=tbf
long f(long n,int k,char c){ printf("%ld %d %d\n",n,k,c); if(n<=0) return k+c; return f(n-1,7,3); }
int main(int argc,char**argv){ long n=in_long()&7; int k=in_int()&255; printf("r %ld\n",f(n,k,9)); return 0; }
//// evenodd mon=bf
int odd(int n);
int even(int n){ printf("e%d\n",n); if(n==0) return 1; return odd(n-1); }
int odd(int n){ printf("o%d\n",n); if(n==0) return 0; return even(n-1); }
int main(int argc,char**argv){ printf("r %d\n",even(in_int()&7)); return 0; }
//// unsignedlong mon=tbf
unsigned long p(unsigned long b,unsigned int e,unsigned long r){ printf("%lu %u\n",r,e); if(e==0) return r; if(e&1) return p(b*b,e>>1,r*b); return p(b*b,e>>1,r); }
int main(int argc,char**argv){ unsigned long b=in_ulong(); unsigned int e=in_uint()&31; printf("r %lu\n",p(b,e,1)); return 0; }
//// doubles mon=tbf
double f(double d,int n){ printf("%f %d\n",d,n); if(n<=0) return d; return f(d+d,n-1); }
int main(int argc,char**argv){ double d=in_double(); printf("r %f\n",f(d,in_int()&3)); return 0; }
//// global mon=tbf
int g; int f(int n){ g=g+n; printf("%d\n",g); if(n<=0) return g; return f(n-1); }
int main(int argc,char**argv){ g=in_int()&255; printf("r %d\n",f(in_int()&15)); return 0; }
//// ptrparam mon=tb
int sum(int *p,int n,int a){ printf("%d\n",a); if(n==0) return a; return sum(p+1,n-1,a+*p); }
int main(int argc,char**argv){ int v[6]={1,2,3,4,5,6}; int n=in_int(); if(n<0||n>6) return 1; v[2]=in_int()&255; int r=sum(v,n,0); printf("r %d\n",r); return 0; }
//// strptr mon=tb
int len(char *s,int k){ printf("%d\n",k); if(*s==0) return k; return len(s+1,k+1); }
int main(int argc,char**argv){ char s[]="abcde"; int i=in_int(); if(i<0||i>4) return 1; s[i]=0; printf("r %d\n",len(s,0)); return 0; }
//// deep50 wasm_depth=9 mon=tbf
int f(int n,int a){ if(n==0) return a; if(n==33) printf("at %d\n",a); if(n==1) printf("one %d\n",a); return f(n-1,a^n); }
int main(int argc,char**argv){ int a=in_int(); printf("r %d\n",f(50,a)); return 0; }
//// returncond mon=tbf
int f(int n,int k){ printf("%d %d\n",n,k); int z=n==0; if(z) return k; if(k>100&&n>2) return f(n-2,k-100); return f(n-1,k+1); }
int main(int argc,char**argv){ int n=in_int()&7; int k=in_int()&511; printf("r %d\n",f(n,k)); return 0; }
//// repeatcalls mon=tbf
int f(int n,int a){ printf("%d\n",a); if(n<=0) return a; return f(n-1,a+1); }
int main(int argc,char**argv){ int s=0; for(int i=0;i<3;i++){ s=s+f(in_int()&3,s); } printf("r %d\n",s); return 0; }
//// void mon=bf
int g; void f(int n){ printf("%d\n",n); if(n<=0){ g=n; return; } f(n-1); return; }
int main(int argc,char**argv){ f(in_int()&7); printf("r %d\n",g); return 0; }
//// nested mon=tbf
int t(int n,int a){ printf("t%d\n",a); if(n<=0) return a; return t(n-1,a+n); }
int f(int n,int a){ printf("f%d\n",a); if(n<=0) return a; int k=t(n,1); return f(n-1,a+k); }
int main(int argc,char**argv){ printf("r %d\n",f(in_int()&3,0)); return 0; }
