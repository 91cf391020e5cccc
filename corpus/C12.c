//// global1
int g=5;
int main(int argc,char**argv){ int a=in_int(); g=g+a; printf("%d\n",g); return 0; }
//// globcompound
int g=5;
int main(int argc,char**argv){ int a=in_int(); g+=a; printf("%d\n",g); g++; printf("%d\n",g); return 0; }
//// globfn
int g=5;
void f(int x){ g=g+x; }
int main(int argc,char**argv){ f(in_int()); printf("%d\n",g); return 0; }
//// globuninit
int g; long h; char c;
int main(int argc,char**argv){ printf("%d %ld\n",g,h); g=in_int(); h=in_long(); c=in_char(); printf("%d %ld\n",g,h); return 0; }
//// globtypes
long a=5000000000; char c='x'; unsigned int u=3000000000; int n=-7; unsigned char k=200; long m=-3; double d=2.5; int z=3*4+1; int q = ~5; int r= !3;
int main(int argc,char**argv){ printf("%ld %c %u %d %d %ld %f %d %d %d\n",a,c,u,n,k,m,d,z,q,r); return 0; }
//// globarr
int a[4]={1,2,3,4};
int main(int argc,char**argv){ int i=in_int(); if(i>=0 && i<4) { printf("%d\n",a[i]); a[i]=9; printf("%d %d %d %d\n",a[0],a[1],a[2],a[3]); } return 0; }
//// globstr
char s[]="hello"; char *p="world";
int main(int argc,char**argv){ printf("%s %s\n",s,p); s[0]='j'; printf("%s\n",s); return 0; }
//// globstruct
struct S { int a; long b; char c; }; struct S s;
int main(int argc,char**argv){ s.a=in_int(); s.b=in_long(); s.c=in_char(); printf("%d %ld\n",s.a,s.b); int q=s.c; printf("%d\n",q); return 0; }
//// globstructinit
struct S { int a; long b; char c; }; struct S s={1,2,'c'};
int main(int argc,char**argv){ printf("%d %ld %c\n",s.a,s.b,s.c); return 0; }
//// globptr
int x=4; int *p=&x;
int main(int argc,char**argv){ printf("%d\n",*p); return 0; }
//// staticlocal
int f(){ static int n=0; n=n+1; return n; }
int main(int argc,char**argv){ f(); printf("%d\n",f()); return 0; }
//// argv1
int main(int argc,char**argv){ printf("%d %s\n",argc,argv[0]); return 0; }
//// globchar
char g=5; unsigned char h; short s; long l; int main(){ h=in_uchar(); g=in_char(); l=in_long(); printf("%d %d %ld %d\n",g,h,l,s); return 0; }
//// globptr_b
int g=3; int *p; int main(){ p=&g; *p=in_int(); printf("%d\n",g); g=4; printf("%d\n",*p); return 0; }
//// globincr
int n; int next(){ n=n+1; return n; } int main(){ n=in_int(); int a=next(); int b=next(); printf("%d %d %d\n",a,b,n); return 0;}
//// globincr2
int n; int next(){ return n++; } int main(){ n=in_int()&255; int a=next(); int b=next(); printf("%d %d %d\n",a,b,n); return 0;}
//// globloop
int n; void add(int k){ n+=k; } int main(){ int i; for(i=0;i<3;i++) add(in_int()&1023); printf("%d\n",n); return 0;}
//// globshadow
int n=1; int f(){ return n; } int main(){ int n=in_int(); { int n=5; n++; } printf("%d %d\n",n,f()); return 0;}
//// globargs
int g=5; int h; long l=9; int main(int argc, char **argv){ h=in_int(); printf("%d %d %ld %s %d\n",g,h,l,argv[0],argc); g=in_int(); printf("%s\n",argv[0]); return 0;}
//// globargsarr
int g[4]={1,2,3,4}; int main(int argc, char **argv){ int i=in_int()&3; int v=in_int(); g[i]=v; printf("%d %d %d %d %s %d\n",g[0],g[1],g[2],g[3],argv[0],argc); return 0;}
//// static2
int f(int a){ static int n=5; static int arr[3]={1,2,3}; static int z; n+=a; arr[1]+=n; z++; return arr[1]*10+z; }
int g(){ static int n=100; n--; return n; }
int main(int argc,char**argv){ int a=in_int()&255; int b=in_int()&255; printf("%d\n",f(a)); g(); printf("%d %d\n",f(b), g()); return 0; }
//// staticrec
int f(int a){ static long total=0; if(a<=0) return 0; total=total+a; f(a-1); printf("%ld\n",total); return 1; }
int main(int argc,char**argv){ int a=in_int(); if(a<4) f(a); return 0; }
//// staticptr
int *f(){ static int x; return &x; }
int main(int argc,char**argv){ *f()=in_int(); printf("%d\n",*f()); return 0; }
//// global_control_flow_init
int h=7; int g=(0?2:3); int k=4; int l=(1||h)+(0&&h); long w=1<2?5:6; int a[3]={0?1:2,1?3:4,5}; double d=0?1.5:2;
int f(int x){ static int u=1?9:5; u=u+x; return u; }
int main(int argc, char **argv){ int x=in_int(); f(x); printf("%d %d %d %d\n",h,g,k,l); printf("%ld %d %d %d %f\n",w,a[0],a[1],a[2],d); printf("%d\n",f(1)); return 0; }
