//// chain
int a4(int x){ return x*2; }
int unused1(int x){ return x+100; }
int a3(int x){ return a4(x)+1; }
int unused2(int x){ return unused1(x)+a3(x); }
int a2(int x){ return a3(x)-a4(x); }
int a1(int x){ return a2(x)^a3(x); }
int main(int argc,char**argv){ printf("%d\n",a1(in_int()&1023)); return 0; }
//// unusedfirst
int unused0(int x){ return x; }
long unused1(long x, long y){ return x*y; }
int f(int x){ return x+7; }
int main(int argc,char**argv){ printf("%d\n",f(in_int()&1023)); return 0; }
//// unusedlast
int f(int x){ return x+7; }
int main(int argc,char**argv){ printf("%d\n",f(in_int()&1023)); return 0; }
long unused1(long x, long y){ return x*y; }
//// rarebranch
int rare(int x){ printf("rare\n"); return x-1; }
int other(int x){ return x+1; }
int main(int argc,char**argv){ int a=in_int(); if(a==123456) printf("%d\n",rare(a)); else if(a>500) printf("%d\n",other(5)); return 0; }
//// cycle
int odd(int n); int never(int n); int never2(int n); int even(int n){ return n==0 ? 1 : odd(n-1); }
int never(int n){ return never2(n)+even(n); }
int never2(int n){ return n>3 ? never(n-1) : 2; }
int odd(int n){ return n==0 ? 0 : even(n-1); }
int main(int argc,char**argv){ printf("%d\n",even(in_int()&3)); return 0; }
//// argcall
int g(int x){ return x+1; } int h(int x){ return x*3; } int z(int x){ return 0; }
int f(int a,int b){ return a-b; }
int main(int argc,char**argv){ int a=in_int()&255; printf("%d %d\n",f(g(a),h(g(a))), f(h(1),g(2))); return 0; }
//// incond
int p(int x){ return x>3; } int q(int x){ return x<10; } int dead(int x){ return p(x); }
int main(int argc,char**argv){ int a=in_int(); int n=0; while(p(a) && n<2){ n++; a=a-1; } for(;q(n);) n+=20; printf("%d %d\n",a,n); return 0; }
//// intern
int p(int x){ return x+3; } int q(int x){ return x-10; } int dead(int x){ return p(x); }
int main(int argc,char**argv){ int a=in_int()&1023; int n = a>5 ? p(a) : q(a); n = n && p(n) || q(n); switch(q(a)){ case 1: n=p(9); } printf("%d\n",n); return 0; }
//// selfrec
int r(int n){ return n<=0 ? 1 : n*r(n-1); } int deadrec(int n){ return n<=0 ? 1 : deadrec(n-1); }
int main(int argc,char**argv){ printf("%d\n",r(in_int()&3)); return 0; }
//// voidcalls
int g; void set(int x){ g=x; } void bump(){ g++; } void dead(){ g=0; }
int main(int argc,char**argv){ set(in_int()&255); bump(); printf("%d\n",g); return 0; }
//// retcall
int leaf(int x){ return x^5; } int mid(int x){ return leaf(x); } int top(int x){ return mid(x); } int dead(int x){ return top(x); }
int main(int argc,char**argv){ return top(in_int()); }
//// arrindex
int ix(int x){ return x&3; } int val(int x){ return x*2; } int dd(int x){ return 0; }
int main(int argc,char**argv){ int a[4]={1,2,3,4}; a[ix(in_int())]=val(5); a[0]+=val(ix(6)); printf("%d %d %d %d\n",a[0],a[1],a[2],a[3]); return 0; }
//// initcall
int five(){ return 5; } int six(){ return 6; } int dead(){ return 7; }
int main(int argc,char**argv){ int a=five(); int b[2]={six(),five()}; long l=six()+in_int()%10; printf("%d %d %d %ld\n",a,b[0],b[1],l); return 0; }
//// deadthenlive
int a(int x){ return x+1; } int b(int x){ return x+2; } int c(int x){ return x+3; } int d(int x){ return x+4; } int e(int x){ return x+5; }
int main(int argc,char**argv){ int x=in_int()&1023; printf("%d %d\n",b(x),e(x)); return 0; }
//// mainrec
int n=0;
int main(int argc,char**argv){ n++; printf("%d\n",n); if(n<3 && argc>0) main(argc,argv); return n; }
//// sameshapes
long f1(long a){ return a+1; } long f2(long a){ return a+2; } int f3(int a){ return a+3; } long f4(long a){ return a+4; } char f5(char c){ return c; }
int main(int argc,char**argv){ long x=in_long()&65535; printf("%ld %ld %d\n",f2(x),f4(x),f5('q')); return 0; }
//// afterreturn
int live(int x){ return x; } int gone(int x){ return x+1; }
int main(int argc,char**argv){ int a=in_int(); if(a>3) return live(a); return 0; printf("%d\n",gone(a)); }
//// libonly
#include <string.h>
int unused(char *s){ return strlen(s); } int used(char *s){ return strlen(s)+1; }
int main(int argc,char**argv){ printf("%d\n",used("abc")); return 0; }
