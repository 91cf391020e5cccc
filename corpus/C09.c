//// ptrinc
int a[3]={1,2,3}; int *p=a; p++; printf("%d\n",*p); ++p; printf("%d\n",*p);
//// ptrincchar
char *p="hello"; p++; printf("%s\n",p);
//// ptrdec
int a[3]={1,2,3}; int *p=a+2; p--; printf("%d\n",*p);
//// ptradd
int a[3]={1,2,3}; int *p=a; p=p+1; printf("%d\n",*p); p+=1; printf("%d\n",*p);  p=p-2; printf("%d\n",*p); p-=0; printf("%d\n",*p);
//// ptraddrev
int a[3]={1,2,3}; int *p=1+a; printf("%d\n",*p);
//// ptrdiff
int a[3]={1,2,3}; int *p=a+2; int *q=a; int d=p-q; printf("%d\n",d);
//// ptrnull
int a; int *p=(void*)0; if(p==(void*)0) printf("null\n"); p=&a; if(p!=(void*)0) printf("nn\n"); if(p) printf("t\n"); if(!p) printf("f\n");
//// ptrderef
int a=in_int(); int *p=&a; *p=*p+1; printf("%d\n",a); int **q=&p; **q=5; printf("%d\n",a);
//// ptrderefasn
int a=in_int(); int *p=&a; int b=(*p=3); printf("%d %d\n",a,b);
//// ptrcompound
int a=in_int(); int *p=&a; *p+=3; printf("%d\n",a); (*p)++; printf("%d\n",a);
//// ptrpostinc
char *s="abc"; int n=0; while(*s){ n+=*s; s++; } printf("%d\n",n);
//// ptrpostincderef
char *s="abc"; int n=0; while(*s) n+=*s++; printf("%d\n",n);
//// ptrarg
void set(int *p,int v){ *p=v; }
void swap(int *a,int *b){ int t=*a; *a=*b; *b=t; }
int main(int argc,char**argv){ int a=in_int(),b=in_int(); swap(&a,&b); printf("%d %d\n",a,b); set(&a,9); printf("%d\n",a); return 0; }
//// ptrchar
int a=in_int(); char *p=(char*)&a; printf("%d %d %d %d\n",p[0]+0,p[1]+0,p[2]+0,p[3]+0);
//// ptruchar
int a=in_int(); unsigned char *p=(unsigned char*)&a; printf("%d %d %d %d\n",p[0]+0,p[1]+0,p[2]+0,p[3]+0); p[1]=7; printf("%d\n",a);
//// addrelem
int a[3]={1,2,3}; int i=in_int()&1; int *p=&a[i]; *p=in_int(); printf("%d %d %d\n",a[0],a[1],a[2]); p=&*p; p++; printf("%d %d\n",*p,(int)(p-a));
//// arraddr
int a[3]={1,2,3}; int i=in_int(); int *p=a+1; *(p+1)=i; *p=9; *a=8; printf("%d %d %d\n",a[0],a[1],a[2]);
//// addrglobelem
int g[3]; struct S{int a; int b;} gs; int *f(int i){ return &g[i]; } 
int main(int argc,char**argv){ int *p=f(in_int()&1); *p=in_int(); int *q=&gs.b; *q=4; printf("%d %d %d %d\n",g[0],g[1],gs.a,gs.b); return 0;}
