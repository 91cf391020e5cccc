//// localarr
int i=in_int(); int a[4]={10,20,30,40}; if(i>=0 && i<4) { a[i]=i; } printf("%d %d %d %d\n",a[0],a[1],a[2],a[3]);
//// arrnosize
int a[]={1,2,3}; printf("%d %d %d\n",a[0],a[1],a[2]);
//// longarr
int i=in_int(); long a[3]; a[0]=1;a[1]=2;a[2]=3; if(i>=0&&i<3) printf("%ld\n",a[i]);
//// chararr
int i=in_int(); char a[4]; a[0]='a';a[1]='b';a[2]='c';a[3]=0; if(i>=0&&i<4) { a[i]='z'; printf("%d\n",a[i]+0); } a[3]=0; printf("%s\n",a);
//// arr2d
int i=in_int(),j=in_int(); int a[2][3]; for(int x=0;x<2;x++) for(int y=0;y<3;y++) a[x][y]=x*10+y; if(i>=0&&i<2&&j>=0&&j<3) printf("%d\n",a[i][j]);
//// arr2dinit
int i=in_int(); int a[2][2]={{1,2},{3,4}}; if(i>=0&&i<2) printf("%d %d\n",a[i][0],a[i][1]);
//// arrcompound
int i=in_int(); int a[3]={1,2,3}; if(i>=0&&i<3){ a[i]+=5; a[i]++; } printf("%d %d %d\n",a[0],a[1],a[2]);
//// arrptr
int i=in_int(); int a[3]={1,2,3}; int *p=a; if(i>=0&&i<3){ printf("%d %d\n",*(p+i),p[i]); }
//// arrarg
int sum(int *a,int n){ int s=0; for(int i=0;i<n;i++) s+=a[i]; return s; }
int sum2(int a[],int n){ int s=0; for(int i=0;i<n;i++) s+=a[i]; return s; }
int main(int argc,char**argv){ int a[3]; a[0]=in_int(); a[1]=in_int(); a[2]=3; printf("%d %d\n",sum(a,3),sum2(a,2)); return 0; }
//// str1
char *s="hello"; int i=in_int(); if(i>=0&&i<6) printf("%d\n",s[i]+0);
//// strlocal
char s[]="hey"; s[1]='o'; printf("%s\n",s);
//// strlen1
#include <string.h>
int main(int argc,char**argv){ char *s="hello"; int n=strlen(s); printf("%d\n",n); return 0; }
//// arr2dptr
int a[2][3]={{1,2,3},{4,5,6}}; int (*p)[3]; int *q=a[1]; q[1]=in_int(); printf("%d %d %d %d %d\n",a[0][2],a[1][0],a[1][1],a[1][2],*a[1]+**a);
//// arr3d
int a[2][2][2]; int n=0; for(int i=0;i<2;i++) for(int j=0;j<2;j++) for(int k=0;k<2;k++) a[i][j][k]=n++; int i=in_int()&1,j=in_int()&1,k=in_int()&1; a[i][j][k]+=100; printf("%d %d %d %d\n",a[0][0][0],a[0][1][1],a[1][0][1],a[1][1][1]); printf("%d\n",(int)sizeof(a));
//// arr2dparam
int f(int a[2][3], int i){ a[1][i]+=5; return a[0][i]+a[1][i]; }
int main(int argc,char**argv){ int a[2][3]={{1,2,3},{4,5,6}}; int i=in_int(); if(i>=0&&i<3) printf("%d\n",f(a,i)); printf("%d %d %d\n",a[1][0],a[1][1],a[1][2]); return 0; }
//// strarr
char s[]="a\xff\\"; printf("%d %d %d %d %d\n",s[0],s[1],s[2],s[3],(int)sizeof(s));
