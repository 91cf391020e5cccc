//// profloop
int f(int x){ int a[3]={1,2,3}; return a[x&1]+x; }
int main(int argc,char**argv){ int s=0; for(int i=0;i<3;i++) s+=f(in_int()&255); printf("%d\n",s); return s; }
//// proftail
int sum(int n,int acc){ if(n<=0) return acc; return sum(n-1,acc+n); } int g(int x){ return sum(x,1); }
int main(int argc,char**argv){ printf("%d\n",g(in_int()&3)); return 0; }
//// profvoid
int n; void f(){ n++; } void g(int k){ if(k) f(); else n=7; }
int main(int argc,char**argv){ g(in_int()); f(); printf("%d\n",n); return 0; }
//// proftypes
long f(char a,long b,double d){ printf("%d %ld %f\n",a,b,d); return b-a; }
int main(int argc,char**argv){ char c=in_char(); long l=in_long()&65535; printf("%ld\n",f(c,l,2.5)); return 0; }
