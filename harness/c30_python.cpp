// C30: the Python module, in an interpreter inside this process: what crosses the border between the languages, and
// every bound call next to the C++ call it stands for.
#include <boost/python.hpp>
#define VH_HEAP
#include "vh.h"
#include "inter.h"
#include "xs.h"
#include <hdf5_hl.h>
using vh::Ctx; using namespace ev;
namespace bp=boost::python;
extern "C" PyObject* PyInit_nuSQuIDS();
typedef std::shared_ptr<CrossSectionLibrary> Lib;
// ---- probes: what a bound function is given, and what it gives back
struct Seen{ D v; std::vector<size_t> dim; std::vector<bool> b; int calls=0; };
static Seen& seen(){ static Seen s; return s; }
template<unsigned N> static void take(const marray<double,N>& m){ Seen& s=seen(); s.calls++; s.v.assign(m.begin(),m.end()); s.dim.clear(); for(unsigned i=0;i<N;i++) s.dim.push_back(m.extent(i)); }
template<unsigned N> static void keep(marray<double,N> m){ take<N>(m); for(auto& x:m) x=-1; }
template<unsigned N> static marray<double,N> give(){ marray<double,N> m; m.resize(seen().dim); std::copy(seen().v.begin(),seen().v.end(),m.begin()); return m; }
static void takev(const D& v){ seen().calls++; seen().v=v; }
static D givev(){ return seen().v; }
static void takeb(std::vector<bool> v){ seen().calls++; seen().b=v; }
BOOST_PYTHON_MODULE(probe){ bp::def("take1",take<1>); bp::def("take2",take<2>); bp::def("take3",take<3>); bp::def("take4",take<4>); bp::def("keep1",keep<1>); bp::def("keep2",keep<2>); bp::def("keep3",keep<3>); bp::def("keep4",keep<4>);
  bp::def("give1",give<1>); bp::def("give2",give<2>); bp::def("give3",give<3>); bp::def("give4",give<4>); bp::def("takev",takev); bp::def("givev",givev); bp::def("takeb",takeb); }
static const char* helpers=R"PY(
import sys, random
import numpy as np
GOOD=['b1','i1','i2','i4','i8','u1','u2','u4','u8','f4','f8']
def floats(a):
    return [float(x) for x in np.ascontiguousarray(a).astype(np.float64).ravel(order='C')]
def fill(r,shape,t):
    n=1
    for s in shape: n*=s
    if t=='b1': return np.array([r.random()<.5 for _ in range(n)],dtype=bool).reshape(shape)
    if t[0]=='f': return np.array([r.choice([0.,-0.,1e-300,1e30,r.uniform(-9,9),r.gauss(0,1e5)]) for _ in range(n)],dtype='f8').astype(t).reshape(shape)
    i=np.iinfo(t)
    return np.array([r.choice([i.min,i.max,0,1,r.randint(max(i.min,-1000),min(i.max,1000))]) for _ in range(n)],dtype=t).reshape(shape)
class Sub(np.ndarray): pass
# an array of the given number of dimensions, in some layout; 'either': refusing it would do as well
def array(seed,dim):
    r=random.Random(seed); t=r.choice(GOOD); must='ok'
    shape=[r.choice([1,1,2,3,4,5,7]) for _ in range(dim)]
    if r.random()<.1: shape[r.randrange(dim)]=0
    how=r.choice(['plain','plain','fortran','slice','reverse','transpose','swapped','swapped','unaligned','readonly','broadcast','subclass','memory','scattered','field'])
    a=fill(r,shape,t)
    if how=='fortran': a=np.asfortranarray(a)
    elif how=='slice':
        big=fill(r,[s*2+3 for s in shape],t); a=big[tuple(slice(1,1+2*s,2) for s in shape)]
    elif how=='reverse': a=a[tuple(slice(None,None,r.choice([1,-1])) for _ in shape)]
    elif how=='transpose':
        p=list(range(dim)); r.shuffle(p); a=a.transpose(p)
    elif how=='swapped':
        if a.dtype.itemsize>1: a=a.astype(a.dtype.newbyteorder('S'))
        if r.random()<.3: a=a[...,::-1]
    elif how=='unaligned':
        k=r.randint(1,7); buf=np.zeros(a.nbytes+k,dtype='u1'); buf[k:]=np.frombuffer(a.tobytes(),dtype='u1'); a=buf[k:].view(a.dtype).reshape(a.shape) if a.size else a
    elif how=='readonly': a.flags.writeable=False
    elif how=='broadcast' and shape[0]>0: a=np.broadcast_to(a[:1],a.shape)
    elif how=='subclass': a=a.view(Sub)
    elif how=='memory': a=np.frombuffer(bytearray(a.tobytes()),dtype=a.dtype).reshape(a.shape) if a.size else a
    elif how=='scattered' and dim>1: a=np.moveaxis(fill(r,shape[::-1],t),0,-1)
    elif how=='field':
        s=np.zeros(a.shape,dtype=[('x','i1'),('y',a.dtype)]); s['y']=a; a=s['y']
    return a, list(a.shape), floats(a), t+' '+how
# things which are no arrays of that number of dimensions of numbers
def notarray(seed,dim):
    r=random.Random(seed)
    k=r.choice(['dim','dim','complex','object','string','list','tuple','none','scalar','zero-d','date','struct','void','str'])
    if k=='dim':
        d=r.choice([x for x in range(0,7) if x!=dim]); return fill(r,[r.randint(1,3) for _ in range(d)],r.choice(GOOD)), '%d dimensions for %d'%(d,dim)
    s=[r.randint(1,3) for _ in range(dim)]
    if k=='complex': return np.ones(s)*1j, k
    if k=='object': return np.array(np.ones(s),dtype=object), k
    if k=='string': return np.array(np.ones(s)).astype('U8'), k
    if k=='list': return np.ones(s).tolist(), k
    if k=='tuple': return tuple(np.ones(s).tolist()), k
    if k=='none': return None, k
    if k=='scalar': return 1.5, k
    if k=='zero-d': return np.array(1.5), k
    if k=='date': return np.zeros(s,dtype='M8[s]'), k
    if k=='struct': return np.zeros(s,dtype=[('a','f8')]), k
    if k=='void': return np.zeros(s,dtype='V8'), k
    return 'abc', k
def half(seed,dim):
    r=random.Random(seed); t=r.choice([np.float16,np.longdouble,np.longlong,np.ulonglong]); a=np.array([r.randint(0,100) for _ in range(6)]).astype(t).reshape([6]+[1]*(dim-1)); return a, floats(a)
class Seq:
    def __init__(self,v,lie=0,bad=None,end=False): self.v=v; self.lie=lie; self.bad=bad; self.end=end
    def __len__(self):
        if self.bad=='len': raise ValueError('no length')
        return len(self.v)+self.lie
    def __getitem__(self,i):
        if self.bad==i: raise KeyError('no such element')
        if i<0 or (i>=len(self.v)): raise IndexError(i)
        return self.v[i]
class Fades(Seq):
    n=0
    def __init__(self,v,k): Seq.__init__(self,v); self.k=k
    def __getitem__(self,i):
        self.n+=1
        if self.n>self.k: raise KeyError('no longer there')
        return Seq.__getitem__(self,i)
class NoBool:
    def __bool__(self): raise ValueError('neither')
def numbers(seed):
    r=random.Random(seed); n=r.choice([0,1,2,5,30]); v=[r.choice([0.,-1.5,1e300,r.gauss(0,1),r.randint(-10**6,10**6),True,float('inf')]) for _ in range(n)]
    k=r.choice(['list','tuple','range','array','seq','npfloat','dictvalues','generator','str','bytes','mixed','none','number','lie','bad','fades','fades','nested','set','ints'])
    f=[float(x) for x in v]
    if k=='list': return v,'ok',f,k
    if k=='tuple': return tuple(v),'ok',f,k
    if k=='range': a=range(r.randint(0,3),r.randint(3,9)); return a,'ok',[float(x) for x in a],k
    if k=='array': return np.array(f),'either',f,k
    if k=='ints': return np.array([1,2,3],dtype='i8'),'either',[1.,2.,3.],k
    if k=='seq': return Seq(v),'either',f,k
    if k=='npfloat': return [np.float64(x) for x in f],'ok',f,k
    if k=='dictvalues': return {i:x for i,x in enumerate(v)}.values(),'either',f,k
    if k=='generator': return (x for x in f),'either',f,k
    if k=='str': return '12','refuse',[],k
    if k=='bytes': return b'12','refuse',[],k
    if k=='mixed': f.insert(r.randint(0,len(f)),r.choice(['x',None,[],1j])); return f,'refuse',[],k
    if k=='none': return None,'refuse',[],k
    if k=='number': return 3.,'refuse',[],k
    if k=='lie': return Seq(f,lie=r.choice([1,3])),'safe',[],k
    if k=='bad': return Seq(f,bad=r.choice(['len',0,len(f)-1])),'safe',[],k
    if k=='fades': return Fades(f,r.randint(0,2*len(f)+1)),'fades',[],k
    if k=='nested': return [f,f],'refuse',[],k
    return {1.,2.},'either',sorted({1.,2.}),k
def masks(seed):
    r=random.Random(seed); n=r.choice([0,1,3,6,70]); v=[r.random()<.5 for _ in range(n)]; k=r.choice(['list','tuple','ints','array','npbool','mixed','seq','none','number','bad','lie','nobool','nested','objects','len'])
    if k=='list': return v,'ok',v,k
    if k=='tuple': return tuple(v),'ok',v,k
    if k=='ints': return [7 if x else 0 for x in v],'ok',v,k
    if k=='array': return np.array(v,dtype=bool),'ok',v,k
    if k=='npbool': return [np.bool_(x) for x in v],'ok',v,k
    if k=='mixed': return ['x' if x else '' for x in v],'either',v,k
    if k=='seq': return Seq(v),'either',v,k
    if k=='none': return None,'refuse',[],k
    if k=='number': return 3,'refuse',[],k
    if k=='bad': return Seq(v,bad=r.choice([0,n-1,n//2])),'refuse' if n else 'either',[],k
    if k=='len': return Seq(v,bad='len'),'refuse',[],k
    if k=='lie': return Seq(v,lie=2),'refuse',[],k
    if k=='nobool': return v+[NoBool()],'refuse',[],k
    if k=='nested': return np.ones((2,2)),'refuse',[],k
    return [object() if x else None for x in v],'either',v,k
def isfloatarray(a): return isinstance(a,np.ndarray) and a.dtype==np.float64 and a.flags.writeable and a.flags.c_contiguous and a.flags.aligned
def junk(r,m):
    return r.choice([None,0,1,-1,2,10**6,2**31,2**32,2**64,-2**63,1.5,float('nan'),float('inf'),-1.,0.,'','abc','/',b'x',True,False,[],[1.],(1.,2.),np.zeros(0),np.array([1.]),np.array([1e9,2e9,5e9]),np.ones((2,3)),np.ones((1,2,3)),np.ones((1,1,2,3)),
      np.ones(3,dtype=complex),m.Basis.mass,m.Basis.interaction,m.NeutrinoType.both,m.GSL_STEP_FUNCTIONS.GSL_STEP_RK4,m.Vacuum(),m.ConstantDensity(1.,.5),m.EarthAtm(),m.Vacuum.Track(1e9),m.EarthAtm.Track(1.,6371.*5e9,22*5e9),m.CrossSectionLibrary(),m.NullCrossSections(),m.SU_vector(3),object(),{},{'a':1}])
)PY";
struct Python{ bp::object ns,mod,np,probe; Python(){
    PyImport_AppendInittab("nuSQuIDS",PyInit_nuSQuIDS); PyImport_AppendInittab("probe",PyInit_probe);
    PyPreConfig pre; PyPreConfig_InitIsolatedConfig(&pre); pre.allocator=PYMEM_ALLOCATOR_MALLOC; pre.utf8_mode=1; if(PyStatus_Exception(Py_PreInitialize(&pre))) die("Py_PreInitialize");
    PyConfig cfg; PyConfig_InitIsolatedConfig(&cfg); cfg.install_signal_handlers=0; cfg.write_bytecode=0; cfg.site_import=0; if(PyStatus_Exception(Py_InitializeFromConfig(&cfg))) die("Py_Initialize"); PyConfig_Clear(&cfg);
    try{ bp::object sys=bp::import("sys"); sys.attr("path").attr("append")(NUMPY_SITE); mod=bp::import("nuSQuIDS"); probe=bp::import("probe"); np=bp::import("numpy"); ns=bp::dict(); bp::exec(helpers,ns,ns); }catch(bp::error_already_set&){ PyErr_Print(); die("loading the module"); } }
  static void die(const char* w){ fprintf(stderr,"harness: %s failed\n",w); _exit(77); } };
static Python& py(){ static Python* p=new Python; return *p; }
// an exception raised in Python: its type, and its text
struct Raised{ std::string type,text; bool is(const char* t) const { return type==t; } };
static Raised raised(){ Raised e; PyObject *t=nullptr,*v=nullptr,*b=nullptr; PyErr_Fetch(&t,&v,&b); PyErr_NormalizeException(&t,&v,&b); if(t) e.type=((PyTypeObject*)t)->tp_name; if(v){ PyObject* s=PyObject_Str(v); if(s){ e.text=PyUnicode_AsUTF8(s); Py_DECREF(s); } PyErr_Clear(); } Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b); return e; }
template<class F> static void body(Ctx& c,F f){ py(); try{ f(); }catch(bp::error_already_set&){ Raised e=raised(); c.fail("unexpected-exception/"+vh::S().group,"Python raised "+e.type+": "+e.text); } }
static D list(const bp::object& o){ D v; long n=bp::len(o); for(long i=0;i<n;i++) v.push_back(bp::extract<double>(o[i])); return v; }
static std::string str(const bp::object& o){ return bp::extract<std::string>(o); }
static bp::object arr(const D& v,std::vector<size_t> dim={}){ bp::list l; for(double x:v) l.append(x); bp::object a=py().np.attr("array")(l,"f8"); if(!dim.empty()){ bp::list d; for(size_t x:dim) d.append(x); a=a.attr("reshape")(d); } return a; }
static long refs(const bp::object& o){ return Py_REFCNT(o.ptr()); }
static bool eq(double a,double b){ return memcmp(&a,&b,8)==0||(std::isnan(a)&&std::isnan(b)); }
static bool eqv(const D& a,const D& b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(!eq(a[i],b[i])) return false; return true; }
// the number of heap blocks one more call leaves behind
// (Python's cache of attribute names keeps some strings alive)
static int64_t blocks(){ PyType_ClearCache(); PyGC_Collect(); return vh::blocks(); }
template<class F> static double left0(F f,int n){ for(int i=0;i<8;i++) f(); double best=1e9; for(int k=0;k<2;k++){ int64_t a=blocks(); for(int i=0;i<n;i++) f(); best=std::min(best,double(blocks()-a)/n); if(best<.3) break; } return best; }
// what Boost.Python itself leaves behind when it refuses a call
static double refusal(){ static double k=left0([]{ try{ py().probe.attr("give1")(1,2); }catch(bp::error_already_set&){ raised(); } },40); return k; }
template<class F> static double left(F f,bool refused=false){ return left0(f,40)-(refused?refusal():0); }
VH_GROUP("arrays",2400,60000){ body(c,[&]{ Rng& r=c.rng; int dim=c.idx%4+1; bool copy=r.coin(); bp::object f=py().probe.attr((std::string(copy?"keep":"take")+std::to_string(dim)).c_str()); uint64_t seed=r.u64()>>1; int what=r.in(0,9); Seen& s=seen(); s=Seen();
  if(what<7){ bp::object g=py().ns["array"](seed,dim),a=g[0]; D shape=list(g[1]),v=list(g[2]); std::string how=str(g[3])+" "+vh::join(shape); c.desc(how); long n=refs(a); bool ok=true; Raised e; try{ f(a); }catch(bp::error_already_set&){ ok=false; e=raised(); }
    if(c.check("arrays/accepted",ok,how+": "+e.type+" "+e.text)){ c.check("arrays/shape",D(s.dim.begin(),s.dim.end())==shape,how+": arrived as "+vh::join(s.dim)); c.check("arrays/values",eqv(s.v,v),how+": "+vh::join(v).substr(0,200)+" arrived as "+vh::join(s.v).substr(0,200)); c.check("arrays/source",eqv(list(py().ns["floats"](a)),v),how+": the array changed"); c.count("arrays-"+how.substr(0,2)); c.count("layout-"+how.substr(3,how.find(' ',3)-3)); if(v.empty()) c.count("arrays-empty"); }
    c.check("arrays/references",refs(a)==n,how+fmt(": %ld references became %ld",n,refs(a))); if(c.idx%16<4){ double k=left([&]{ f(a); }); c.check("arrays/leak",k<.5,how+fmt(": %g blocks left by every call",k)); c.count("leak-tests"); } c.nontrivial(how); }
  else if(what<9){ bp::object g=py().ns["notarray"](seed,dim),a=g[0]; std::string how=str(g[1]); c.desc(how); long n=refs(a); auto f1=[&]{ Raised e; try{ f(a); }catch(bp::error_already_set&){ e=raised(); } return e; }; Raised e=f1(); c.check("arrays/refused",!e.type.empty()&&s.calls==0,how+" was accepted"); c.check("arrays/references",refs(a)==n||n>1000,how+fmt(": %ld references became %ld",n,refs(a))); if(c.idx%16<4){ double k=left([&]{ f1(); },true); c.check("arrays/leak",k<.5,how+fmt(": %g blocks left by every call",k)); } c.count("refused"); c.nontrivial(how); }
  else { bp::object g=py().ns["half"](seed,dim),a=g[0]; D v=list(g[1]); try{ f(a); c.check("arrays/values",eqv(s.v,v),"values of a type which need not be taken"); }catch(bp::error_already_set&){ raised(); c.check("arrays/refused",s.calls==0,""); } c.count("other-types"); }
  }); }
VH_GROUP("results",800,20000){ body(c,[&]{ Rng& r=c.rng; int dim=c.idx%4+1; Seen& s=seen(); s=Seen(); size_t n=1; for(int i=0;i<dim;i++){ s.dim.push_back(r.coin(.05)?0:r.in(1,5)); n*=s.dim.back(); } for(size_t i=0;i<n;i++) s.v.push_back(r.coin(.1)?-0.:r.coin(.1)?NAN:r.gauss()*1e3); D v=s.v; c.desc(vh::join(s.dim));
  bp::object f=py().probe.attr(("give"+std::to_string(dim)).c_str()),a=f(),b=f(); D sh; for(int i=0;i<dim;i++) sh.push_back(bp::extract<double>(bp::import("builtins").attr("float")(bp::object(a.attr("shape")[i]))));
  c.check("results/kind",bp::extract<bool>(py().ns["isfloatarray"](a)),"not a plain array of doubles"); c.check("results/shape",bp::len(a.attr("shape"))==dim&&sh==D(s.dim.begin(),s.dim.end()),vh::join(sh)+" for "+vh::join(s.dim)); D got=list(py().ns["floats"](a)); c.check("results/values",eqv(got,v),vh::join(got).substr(0,200)+" for "+vh::join(v).substr(0,200)); c.check("results/owned",refs(a)==1,fmt("%ld references",refs(a)));
  if(n){ a.attr("fill")(4.5); c.check("results/apart",eqv(list(py().ns["floats"](b)),v)&&eqv(s.v,v),"writing to one result changed another"); } a=bp::object(); if(c.idx%8<4){ double k=left([&]{ f(); }); c.check("results/leak",k<.5,fmt("%g blocks left by every call",k)); c.count("leak-tests"); } c.count("results"); c.nontrivial(vh::join(s.dim)+vh::join(v).substr(0,60)); }); }
VH_GROUP("lists",1600,40000){ body(c,[&]{ Rng& r=c.rng; bool mask=c.idx%2; Seen& s=seen(); s=Seen(); s.b.assign(3,true); uint64_t seed=r.u64()>>1; bp::object g=py().ns[mask?"masks":"numbers"](seed),a=g[0],f=py().probe.attr(mask?"takeb":"takev"); std::string want=str(g[1]),how=std::string(mask?"mask ":"numbers ")+str(g[3]); c.desc(how+fmt(" (%ld)",(long)bp::len(g[2]))); long n=refs(a);
  auto f1=[&]{ Raised e; try{ f(a); }catch(bp::error_already_set&){ e=raised(); } return e; }; Raised e=f1(); bool ok=e.type.empty(); if(want=="ok") c.check("lists/accepted",ok,how+": "+e.type+" "+e.text); if(want=="refuse") c.check("lists/refused",!ok,how+" was accepted"); if(!ok) c.check("lists/refused",s.calls==0&&!e.is("SystemError"),how+": "+e.type+" "+e.text);
  if(ok&&want!="safe"&&want!="refuse"){ if(mask){ std::vector<bool> v; for(long i=0;i<bp::len(g[2]);i++) v.push_back(bp::extract<bool>(g[2][i])); c.check("lists/values",s.b==v,how+fmt(": %d entries arrived as %d",(int)v.size(),(int)s.b.size())); } else c.check("lists/values",eqv(s.v,list(g[2])),how+": arrived as "+vh::join(s.v)); c.count(mask?"masks":"numbers"); } if(!ok) c.count("refused");
  c.check("lists/pending",!PyErr_Occurred(),how+": an exception is pending"); PyErr_Clear(); c.check("lists/references",refs(a)==n||n>1000,how+fmt(": %ld references became %ld",n,refs(a))); if(c.idx%8<2&&how.find("generator")==std::string::npos){ double k=left([&]{ f1(); },!ok); c.check("lists/leak",k<.5,how+fmt(": %g blocks left by every call",k)); c.count("leak-tests"); }
  if(!mask){ s.v.clear(); for(int i=r.in(0,20);i>0;i--) s.v.push_back(r.gauss()); D v=s.v; bp::object l=py().probe.attr("givev")(); c.check("lists/back",PyList_CheckExact(l.ptr())&&eqv(list(l),v)&&refs(l)==1,"a list of doubles came back wrong"); if(c.idx%16<2){ double k=left([&]{ py().probe.attr("givev")(); }); c.check("lists/leak",k<.5,fmt("%g blocks left by every list given back",k)); } } c.nontrivial(how+fmt("%d",(int)(seed%97))); }); }
// ---- a bound call next to the C++ call
struct Ans{ bool ok=true; double v=0; std::string what; };
template<class F> static auto value(F f) -> typename std::enable_if<std::is_void<decltype(f())>::value,double>::type { f(); return 0; }
template<class F> static auto value(F f) -> typename std::enable_if<!std::is_void<decltype(f())>::value,double>::type { return (double)f(); }
template<class F> static Ans cxx(F f){ Ans a; try{ a.v=f(); }catch(std::exception& e){ a.ok=false; a.what=e.what(); } return a; }
template<class F> static Ans pyt(F f){ Ans a; try{ bp::object o=f(); if(!o.is_none()){ bp::extract<double> x(o); a.v=x.check()?x():-12345; } }catch(bp::error_already_set&){ a.ok=false; Raised e=raised(); a.what=e.type+": "+e.text; } return a; }
static void same(Ctx& c,const std::string& n,const Ans& a,const Ans& b,double tol=0){ c.count("calls"); c.count("call-"+n); if(!a.ok) c.count("refused-by-both"); if(!c.check("twin/outcome",a.ok==b.ok,n+": C++ "+(a.ok?"returned":"threw "+a.what)+", Python "+(b.ok?"returned":"raised "+b.what))) return; if(a.ok) c.check("twin/value",eq(a.v,b.v)||Ctx::close(a.v,b.v,1e-10,tol),n+fmt(": C++ %.17g Python %.17g",a.v,b.v)); else c.check("twin/message",b.what.find(a.what)!=std::string::npos,n+": C++ threw "+a.what+", Python raised "+b.what); }
#define CALL(N,...) [&](auto... a_){ same(c,#N,cxx([&]{ return value([&]{ return C.N(a_...); }); }),pyt([&]{ return P.attr(#N)(a_...); }),tol); }(__VA_ARGS__)
static bp::object en(const char* e,const char* v){ return py().mod.attr(e).attr(v); }
static const char* ntn(NeutrinoType t){ return t==both?"both":t==neutrino?"neutrino":"antineutrino"; }
// everything a file keeps
static void dump(hid_t g,const std::string& at,std::map<std::string,std::string>& m){
  struct Q{ const std::string& at; std::map<std::string,std::string>& m; } q{at,m}; auto bytes=[](hid_t s,hid_t t,std::function<herr_t(void*)> rd){ hssize_t n=H5Sget_simple_extent_npoints(s); std::string b; if(n<0) n=0; if(H5Tis_variable_str(t)>0) return std::string("variable"); b.resize(n*H5Tget_size(t)); if(!b.empty()) rd(&b[0]); return b; }; (void)bytes;
  H5Aiterate2(g,H5_INDEX_NAME,H5_ITER_INC,nullptr,[](hid_t o,const char* n,const H5A_info_t*,void* p)->herr_t{ Q& q=*(Q*)p; hid_t a=H5Aopen(o,n,H5P_DEFAULT),t=H5Aget_type(a),s=H5Aget_space(a); std::string b(std::max<hssize_t>(1,H5Sget_simple_extent_npoints(s))*H5Tget_size(t),0); if(H5Tis_variable_str(t)<=0) H5Aread(a,t,&b[0]); q.m[q.at+"@"+n]=b; H5Sclose(s); H5Tclose(t); H5Aclose(a); return 0; },&q);
  H5Literate(g,H5_INDEX_NAME,H5_ITER_INC,nullptr,[](hid_t o,const char* n,const H5L_info_t*,void* p)->herr_t{ Q& q=*(Q*)p; hid_t k=H5Oopen(o,n,H5P_DEFAULT); std::string at=q.at+"/"+n; H5I_type_t ty=H5Iget_type(k); if(ty==H5I_DATASET){ hid_t t=H5Dget_type(k),s=H5Dget_space(k); std::string b(std::max<hssize_t>(0,H5Sget_simple_extent_npoints(s))*H5Tget_size(t),0); if(!b.empty()) H5Dread(k,t,H5S_ALL,H5S_ALL,H5P_DEFAULT,&b[0]); q.m[at]=b; H5Sclose(s); H5Tclose(t); dump(k,at,q.m); } else { q.m[at]="group"; dump(k,at,q.m); } H5Oclose(k); return 0; },&q); }
static std::map<std::string,std::string> file(const std::string& f){ std::map<std::string,std::string> m; hid_t h=H5Fopen(f.c_str(),H5F_ACC_RDONLY,H5P_DEFAULT); if(h<0){ m["no file"]=f; return m; } dump(h,"",m); H5Fclose(h); return m; }
static std::string fdiff(const std::string& a,const std::string& b,double tol){ auto x=file(a),y=file(b); if(x.count("no file")||y.count("no file")) return "no file"; for(auto& p:x) if(!y.count(p.first)) return p.first+" is missing"; for(auto& p:y){ auto i=x.find(p.first); if(i==x.end()) return p.first+" is extra"; if(i->second==p.second) continue; const std::string& u=i->second; if(u.size()==p.second.size()&&u.size()%8==0&&!u.empty()){ bool ok=true; for(size_t k=0;k<u.size();k+=8){ double d,e; memcpy(&d,&u[k],8); memcpy(&e,&p.second[k],8); if(!Ctx::close(d,e,1e-9,tol)) ok=false; } if(ok) continue; } return p.first+" differs"; } return ""; }
struct Mute2{ std::ostringstream o; std::streambuf *a,*b; Mute2():a(std::cout.rdbuf(o.rdbuf())),b(std::cerr.rdbuf(o.rdbuf())){} ~Mute2(){ std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
// the same body and path made in both languages
struct Medium{ std::shared_ptr<Body> cb; std::shared_ptr<nusquids::Track> ct; bp::object pb,pt; std::string how; double L=0; };
static D rising(Rng& r,int n,double a,double b){ D x; for(int i=0;i<n;i++) x.push_back(i+r.uni(0,.7)); double l=x[0],h=x.back(); for(auto& v:x) v=a+(b-a)*(v-l)/(h-l); x.front()=a; x.back()=b; return x; }
static bp::object plist(const D& v,bool tuple=false){ bp::list l; for(double x:v) l.append(x); if(tuple) return bp::tuple(l); return l; }
static Medium medium(Rng& r,const std::string& tmp,double L,int k=-1){ Medium m; m.L=L; bp::object M=py().mod; if(k<0) k=r.in(0,6); double xi=r.coin()?0:r.uni(.01,.3)*L; bool two=r.coin();
  auto tr=[&](auto* t,const char* n){ typedef typename std::remove_pointer<decltype(t)>::type T; if(two){ m.ct=std::make_shared<T>(xi,L); m.pt=M.attr(n).attr("Track")(xi,L); } else { m.ct=std::make_shared<T>(L); m.pt=M.attr(n).attr("Track")(L); } };
  switch(k){
    case 0: m.how="vacuum"; m.cb=std::make_shared<Vacuum>(); m.pb=M.attr("Vacuum")(); tr((Vacuum::Track*)0,"Vacuum"); break;
    case 1: { double a=r.uni(.5,10),b=r.uni(.1,.9); m.how="constant"; m.cb=std::make_shared<ConstantDensity>(a,b); m.pb=M.attr("ConstantDensity")(a,b); tr((ConstantDensity::Track*)0,"ConstantDensity"); break; }
    case 2: { int n=r.in(5,12); D x=rising(r,n,0,L/K.cm),d,y; for(int i=0;i<n;i++){ d.push_back(r.uni(1,6)); y.push_back(r.uni(.3,.6)); } m.how="variable"; m.cb=std::make_shared<VariableDensity>(x,d,y); m.pb=M.attr("VariableDensity")(plist(x),plist(d,true),plist(y)); tr((VariableDensity::Track*)0,"VariableDensity"); break; }
    case 3: { std::string f; if(r.coin()){ int n=r.in(5,12); D x=rising(r,n,0,1); f=tmp+"/e.dat"; FILE* o=fopen(f.c_str(),"w"); for(int i=0;i<n;i++) fprintf(o,"%.17g %.17g %.17g\n",x[i],r.uni(2,6),r.uni(.4,.55)); fclose(o); } m.how="Earth"; if(f.empty()){ m.cb=std::make_shared<Earth>(); m.pb=M.attr("Earth")(); } else { m.cb=std::make_shared<Earth>(f); m.pb=M.attr("Earth")(f); } if(two){ double e=L*r.uni(.5,.99); m.ct=std::make_shared<Earth::Track>(xi*.5,e,L); m.pt=M.attr("Earth").attr("Track")(xi*.5,e,L); } else { m.ct=std::make_shared<Earth::Track>(L); m.pt=M.attr("Earth").attr("Track")(L); } break; }
    case 4: { m.how="Sun"; m.cb=std::make_shared<Sun>(); m.pb=M.attr("Sun")(); tr((Sun::Track*)0,"Sun"); break; }
    case 5: { m.how="SunASnu"; m.cb=std::make_shared<SunASnu>(); m.pb=M.attr("SunASnu")(); double b=694439.0*K.km*std::sqrt(1-1e-4*r.uni(.1,1)); m.ct=std::make_shared<SunASnu::Track>(b); m.pt=M.attr("SunASnu").attr("Track")(b); m.L=m.ct->GetFinalX(); break; }
    default: { auto e=std::make_shared<EarthAtm>(); m.cb=e; m.pb=M.attr("EarthAtm")(); m.how="EarthAtm"; if(two){ double h=r.uni(1,60); m.how+=fmt(" %g km",h); e->SetAtmosphereHeight(h); m.pb.attr("SetAtmosphereHeight")(h); } double cz=r.uni(-1,.5); int q=r.in(0,2); if(q==0){ m.ct=std::make_shared<EarthAtm::Track>(e->MakeTrackWithCosine(cz)); m.pt=m.pb.attr("MakeTrackWithCosine")(cz); } else if(q==1){ m.ct=std::make_shared<EarthAtm::Track>(e->MakeTrack(std::acos(cz))); m.pt=m.pb.attr("MakeTrack")(std::acos(cz)); } else { double R=e->GetRadius()*K.km,H=e->GetAtmosphereHeight()*K.km; m.ct=std::make_shared<EarthAtm::Track>(std::acos(cz),R,H); m.pt=M.attr("EarthAtm").attr("Track")(std::acos(cz),bp::extract<double>(m.pb.attr("GetRadius")())()*K.km,bp::extract<double>(m.pb.attr("GetAtmosphereHeight")())()*K.km); } m.L=m.ct->GetFinalX(); } }
  return m; }
VH_GROUP("bodies",700,15000){ body(c,[&]{ Rng& r=c.rng; Medium m=medium(r,c.tmp,r.logu(10,5000)*K.km,c.idx%7); c.desc(m.how); double tol=0; { auto& C=*m.ct; bp::object P=m.pt; CALL(GetInitialX); CALL(GetFinalX); CALL(GetX); if(r.coin(.3)){ CALL(ReverseTrack); CALL(GetInitialX); CALL(GetFinalX); CALL(GetX); } }
  double a=m.ct->GetInitialX(),b=m.ct->GetFinalX(); for(int i=0;i<6;i++){ double x=r.uni(a,b); { auto& C=*m.ct; bp::object P=m.pt; CALL(SetX,x); CALL(GetX); } same(c,"density",cxx([&]{ return m.cb->density(*m.ct); }),pyt([&]{ return m.pb.attr("density")(m.pt); })); same(c,"ye",cxx([&]{ return m.cb->ye(*m.ct); }),pyt([&]{ return m.pb.attr("ye")(m.pt); })); c.count("media-compared"); }
  if(auto e=std::dynamic_pointer_cast<EarthAtm>(m.cb)){ auto& C=*e; bp::object P=m.pb; CALL(GetRadius); CALL(GetAtmosphereHeight); double h=r.uni(0,80); CALL(SetAtmosphereHeight,h); CALL(GetAtmosphereHeight); CALL(SetAtmosphereHeight,-1.); CALL(GetAtmosphereHeight); c.count("atmospheres"); }
  c.nontrivial(m.how+fmt("%.9g",m.L)); }); }
struct Two{ std::shared_ptr<nuSQUIDS> c; bp::object p; int n=3,ne=1,nr=1; bool single=false,inter=false; NeutrinoType nt=neutrino; D E; std::string how; double scale=1; World w; };
static void wellSet(Rng& r,Ctx& c,Two& t){ auto& C=*t.c; bp::object P=t.p; double tol=0; CALL(Set_rel_error,1e-7); CALL(Set_abs_error,1e-9*t.scale); double h=r.logu(.1,10)*K.km; CALL(Set_h,h); CALL(Set_h_max,200*K.km); for(int j=1;j<t.n;j++){ double d=r.logu(1e-5,3e-3); CALL(Set_SquareMassDifference,j,d); for(int i=0;i<j;i++){ double a=r.uni(0,1.5),b=r.uni(0,6); CALL(Set_MixingAngle,i,j,a); CALL(Set_CPPhase,i,j,b); } } }
static Two two(Rng& r,Ctx& c,bool inter){ Two t; bp::object M=py().mod,S=M.attr("nuSQUIDS"); t.inter=inter; t.n=inter?3:r.in(3,5); t.single=!inter&&r.coin(.3); t.nt=t.single?NTS[r.in(0,1)]:NTS[r.in(0,2)]; t.nr=t.nt==both?2:1; bp::object nt=en("NeutrinoType",ntn(t.nt));
  if(t.single){ t.E={r.logu(1,100)*K.GeV}; t.c=std::make_shared<nuSQUIDS>((unsigned)t.n,t.nt); t.p=S(t.n,nt); auto& C=*t.c; bp::object P=t.p; double tol=0; CALL(Set_E,t.E[0]); }
  else { t.ne=inter?r.in(3,6):r.in(2,6); double e=r.logu(inter?100:1,1000)*K.GeV; for(int i=0;i<t.ne;i++){ t.E.push_back(e); e*=r.uni(1.1,2); } marray<double,1> E{(size_t)t.ne}; std::copy(t.E.begin(),t.E.end(),E.begin()); bp::object A=arr(t.E); int k=r.in(0,2);
    if(inter){ t.w=World::make(r,t.E[t.ne/2],3,3000*K.km,r.logu(.1,1)); t.c=std::make_shared<nuSQUIDS>(E,(unsigned)t.n,t.nt,true,t.w.lib); t.p=S(A,t.n,nt,true,t.w.lib); } else if(k==0){ t.c=std::make_shared<nuSQUIDS>(E,(unsigned)t.n,t.nt,false); t.p=S(A,t.n,nt,false); } else if(k==1||t.nt!=both){ t.c=std::make_shared<nuSQUIDS>(E,(unsigned)t.n,t.nt); t.p=S(A,t.n,nt); } else { t.c=std::make_shared<nuSQUIDS>(E,(unsigned)t.n); t.p=S(A,t.n); }
    A.attr("fill")(-1.); }
  t.how=fmt("%d flavours %s %d energies%s",t.n,ntn(t.nt),t.ne,inter?" interacting":""); t.scale=r.coin()?1:r.logu(1e-6,1e6); (void)c; return t; }
static void initial(Rng& r,Ctx& c,Two& t,bool dflt=false){ D v; std::vector<size_t> d; if(t.single) d={(size_t)t.n}; else if(t.nr==1) d={(size_t)t.ne,(size_t)t.n}; else d={(size_t)t.ne,(size_t)t.nr,(size_t)t.n}; size_t n=1; for(auto k:d) n*=k; for(size_t i=0;i<n;i++) v.push_back(r.coin(.2)?0:t.scale*r.unit()); bool fl=r.coin(.7); if(dflt) fl=true; Basis b=fl?flavor:mass; bp::object A=arr(v,d); bool omit=fl&&r.coin();
  auto go=[&](auto m){ m.resize(d); std::copy(v.begin(),v.end(),m.begin()); same(c,"Set_initial_state",cxx([&]{ t.c->Set_initial_state(m,b); return 0.; }),pyt([&]{ return omit?t.p.attr("Set_initial_state")(A):t.p.attr("Set_initial_state")(A,en("Basis",fl?"flavor":"mass")); })); }; if(d.size()==1) go(marray<double,1>()); else if(d.size()==2) go(marray<double,2>()); else go(marray<double,3>()); A.attr("fill")(7.); }
// all that can be asked of either
static void compare(Ctx& c,Two& t,const char* when){ auto& C=*t.c; bp::object P=t.p; double tol=1e-10*t.scale; Rng& r=c.rng; c.count(std::string("compared-")+when); CALL(GetNumE); CALL(GetNumNeu); CALL(GetNumRho); CALL(GetUseInteractions); CALL(GetUseOscillations); CALL(Get_NeutrinoSources); for(int j=1;j<t.n;j++){ CALL(Get_SquareMassDifference,j); for(int i=0;i<j;i++){ CALL(Get_MixingAngle,i,j); CALL(Get_CPPhase,i,j); } }
  { auto e=t.c->GetERange(); c.check("twin/energies",eqv(D(e.begin(),e.end()),list(P.attr("GetERange")())),when); }
  for(int e=0;e<t.ne;e++)for(int q=0;q<t.nr;q++){ for(int i=0;i<t.n;i++){ CALL(EvalFlavorAtNode,i,e,q); CALL(EvalMassAtNode,i,e,q); } auto s=t.c->GetState(e,q); D v=list(P.attr("GetState")(e,q).attr("GetComponents")()),w=s.GetComponents(); bool ok=v.size()==w.size(); for(size_t i=0;ok&&i<v.size();i++) ok=Ctx::close(v[i],w[i],1e-9,1e-9*t.scale); c.check("twin/state",ok,std::string(when)+": "+vh::join(w)+" in Python "+vh::join(v)); if(q==0){ D z=list(P.attr("GetState")(e).attr("GetComponents")()); c.check("twin/state",eqv(z,v),"the default density matrix is another"); } }
  if(t.single) for(int i=0;i<t.n;i++){ CALL(EvalFlavor,i); CALL(EvalMass,i); double sc=r.logu(.01,1e3); std::vector<bool> m(t.n); same(c,"EvalFlavor-mask",cxx([&]{ return C.EvalFlavor(i,sc,m); }),pyt([&]{ bp::list l; for(int k=0;k<t.n;k++) l.append(false); return py().mod.attr("EvalFlavor")(P,i,sc,l); }),tol); }
  else for(int k=0;k<3;k++){ double e=r.uni(t.E[0],t.E.back()); int i=r.in(0,t.n-1),q=r.in(0,t.nr-1); CALL(EvalFlavor,i,e,q); CALL(EvalMass,i,e,q); double sc=r.logu(.01,1e3); std::vector<bool> m(t.n); same(c,"EvalFlavor-mask",cxx([&]{ return C.EvalFlavor(i,e,q,sc,m); }),pyt([&]{ bp::list l; for(int k=0;k<t.n;k++) l.append(false); return py().mod.attr("EvalFlavor")(P,i,e,q,sc,l); }),tol); } }
static const std::vector<std::pair<const char*,const gsl_odeiv2_step_type*>>& steps(){ static const std::vector<std::pair<const char*,const gsl_odeiv2_step_type*>> s={{"GSL_STEP_RK2",gsl_odeiv2_step_rk2},{"GSL_STEP_RK4",gsl_odeiv2_step_rk4},{"GSL_STEP_RKF45",gsl_odeiv2_step_rkf45},{"GSL_STEP_RKCK",gsl_odeiv2_step_rkck},{"GSL_STEP_RK8PD",gsl_odeiv2_step_rk8pd},{"GSL_STEP_MSADAMS",gsl_odeiv2_step_msadams}}; return s; }
static void steppers(Ctx& c,const std::function<void(const gsl_odeiv2_step_type*)>& f,const bp::object& P,int k){ auto& s=steps()[k]; same(c,std::string("Set_GSL_step-")+s.first,cxx([&]{ f(s.second); return 0.; }),pyt([&]{ return P.attr("Set_GSL_step")(en("GSL_STEP_FUNCTIONS",s.first)); })); }
static void turn(Rng& r,Ctx& c,Two& t){ auto& C=*t.c; bp::object P=t.p; double tol=1e-10*t.scale; bool b=r.coin(); unsigned i=r.in(0,t.n-1),j=r.in(0,t.n); double v=r.uni(-1,2);
  switch(r.in(0,20)){ case 20: CALL(Set_AdaptiveStep,b); break; case 0: CALL(Set_TauRegeneration,b); break; case 1: CALL(Set_GlashowResonance,b); break; case 2: CALL(Set_IncludeOscillations,b); break; case 3: CALL(Set_AllowConstantDensityOscillationOnlyEvolution,b); break; case 4: CALL(Set_PositivityConstrain,b); break; case 5: { double s=r.uni(50,500)*K.km; CALL(Set_PositivityConstrainStep,s); break; } case 6: CALL(Set_ProgressBar,b); break; case 7: CALL(Set_MixingParametersToDefault); initial(r,c,t); break; case 8: { int k=r.in(0,2); Basis q=k==0?mass:k==1?interaction:flavor; same(c,"Set_Basis",cxx([&]{ C.Set_Basis(q); return 0.; }),pyt([&]{ return P.attr("Set_Basis")(en("Basis",k==0?"mass":k==1?"interaction":"flavor")); })); break; }
    case 9: CALL(Set_MixingAngle,i,j,v); initial(r,c,t); break; case 10: CALL(Set_CPPhase,i,j,v); initial(r,c,t); break; case 11: CALL(Set_SquareMassDifference,j,r.u64()%2?1e-3:2.5e-3*0+1e-3); initial(r,c,t); break; case 12: CALL(Set_NeutrinoSources,b); break; case 13: { double w=r.uni(1e-13,1e-12),s=r.uni(1e-14,1e-13); CALL(Set_EvolLowPassCutoff,w); CALL(Set_EvolLowPassScale,s); break; } case 14: CALL(Set_h_min,1e-3*K.km); break; case 15: { double h=r.uni(20,300)*K.km; CALL(Set_h_max,h); break; } case 16: CALL(Set_Debug,b); break; case 17: { double e=r.logu(1e-8,1e-5); CALL(Set_rel_error,e); break; } case 18: if(t.single){ double e=r.logu(1,100)*K.GeV; CALL(Set_E,e); initial(r,c,t); } else CALL(Set_E,1e9); break; default: steppers(c,[&](const gsl_odeiv2_step_type* s){ C.Set_GSL_step(s); },P,r.in(0,5)); } }
// the cross sections of an object, and others in their place
static void exchange(Rng& r,Ctx& c,Two& t){ if(!t.inter) return; auto& C=*t.c; bp::object P=t.p; auto held=[&]{ bp::object L=P.attr("GetNeutrinoCrossSections")(); bp::extract<CrossSectionLibrary*> x(L); c.check("twin/cross-sections",x.check()&&x()==t.w.lib.get()&&C.GetNeutrinoCrossSections()==t.w.lib,"GetNeutrinoCrossSections gives others than were set"); }; held(); if(r.coin(.6)) return; t.w=World::make(r,t.E[t.ne/2],3,3000*K.km,r.logu(.1,1)); same(c,"SetNeutrinoCrossSections",cxx([&]{ C.SetNeutrinoCrossSections(t.w.lib); return 0.; }),pyt([&]{ return P.attr("SetNeutrinoCrossSections")(t.w.lib); })); held(); c.count("cross-sections-exchanged"); }
VH_GROUP("objects",260,6000){ body(c,[&]{ Rng& r=c.rng; bool inter=c.idx%4==0; Two t=two(r,c,inter); Medium m=medium(r,c.tmp,r.uni(300,3000)*K.km,inter?r.in(1,3):-1); t.how+=" through "+m.how; c.desc(t.how); auto& C=*t.c; bp::object P=t.p; double tol=1e-10*t.scale; Mute2 q; wellSet(r,c,t);
  auto put=[&]{ same(c,"Set_Body",cxx([&]{ C.Set_Body(m.cb); return 0.; }),pyt([&]{ return P.attr("Set_Body")(m.pb); })); same(c,"Set_Track",cxx([&]{ C.Set_Track(m.ct); return 0.; }),pyt([&]{ return P.attr("Set_Track")(m.pt); })); };
  int before=r.in(0,2); if(before==0&&r.coin(.3)){ CALL(EvolveState); CALL(EvalFlavorAtNode,0,0,0); } put(); initial(r,c,t); for(int k=r.in(0,6);k>0;k--) turn(r,c,t); if(inter&&r.coin()){ CALL(InitializeInteractions); } exchange(r,c,t); initial(r,c,t); compare(c,t,"before");
  { std::string a,b; q.o.str(""); Ans x=cxx([&]{ C.EvolveState(); return 0.; }); a=q.o.str(); q.o.str(""); Ans y=pyt([&]{ return P.attr("EvolveState")(); }); b=q.o.str(); same(c,"EvolveState",x,y); c.check("twin/printed",a.empty()==b.empty(),"one prints and the other does not"); }
  compare(c,t,"after"); c.count("evolved"); for(int e=0;e<t.ne;e++){ auto h=cxx([&]{ return C.GetHamiltonian(e,0)[0]; }); D v; auto g=pyt([&]{ bp::object o=P.attr("GetHamiltonian")(e,0); v=list(o.attr("GetComponents")()); return bp::object(v[0]); }); same(c,"GetHamiltonian",h,g,1e-22); }
  { std::string f=c.tmp+"/a.h5",g=c.tmp+"/b.h5"; int k=r.in(0,4); unlink(f.c_str()); unlink(g.c_str()); bp::object W=P.attr("WriteStateHDF5"); std::string grp=k==0?"/":"/some"; Ans a=cxx([&]{ switch(k){case 0:C.WriteStateHDF5(f);break;case 1:C.WriteStateHDF5(f,grp);break;case 2:C.WriteStateHDF5(f,grp,false);break;case 3:C.WriteStateHDF5(f,grp,true,"/xs");break;default:C.WriteStateHDF5(f,grp,true,"",true);} return 0.; }); Ans b=pyt([&]{ return k==0?W(g):k==1?W(g,grp):k==2?W(g,grp,false):k==3?W(g,grp,true,"/xs"):W(g,grp,true,"",true); }); same(c,"WriteStateHDF5",a,b);
    if(a.ok&&b.ok){ std::string d=fdiff(f,g,1e-9*t.scale); c.check("twin/file",d.empty(),d); c.count("files"); bool hasXs=!(inter&&k==2); if(hasXs){ auto C2=std::make_shared<nuSQUIDS>(); bp::object P2; int how=r.in(0,1); std::string xs=k==3?"/xs":""; Ans x=cxx([&]{ if(how) C2->ReadStateHDF5(f,grp,xs); else C2=std::make_shared<nuSQUIDS>(f,k==3?grp:grp); return 0.; }); Ans y=pyt([&]{ bp::object S=py().mod.attr("nuSQUIDS"); if(how){ P2=S(); if(k==0&&r.coin()) P2.attr("ReadStateHDF5")(g); else if(xs.empty()) P2.attr("ReadStateHDF5")(g,grp); else P2.attr("ReadStateHDF5")(g,grp,xs); } else P2=S(g,grp); return bp::object(); }); same(c,"ReadStateHDF5",x,y); if(x.ok&&y.ok){ Two u=t; u.c=C2; u.p=P2; compare(c,u,"loaded"); } } } unlink(f.c_str()); unlink(g.c_str()); }
  if(r.coin(.4)){ for(int k=r.in(0,3);k>0;k--) turn(r,c,t); exchange(r,c,t); put(); CALL(EvolveState); compare(c,t,"again"); }
  { auto B=P.attr("GetBody")(); c.check("twin/body",B.ptr()==m.pb.ptr()||bp::extract<std::shared_ptr<Body>>(B)().get()==bp::extract<Body*>(m.pb)(),"another body came back"); auto T=P.attr("GetTrack")(); c.check("twin/track",eq(bp::extract<double>(T.attr("GetX")())(),C.GetTrack()->GetX()),""); } c.nontrivial(t.how); c.sample(t.how); }); }
VH_GROUP("ensembles",70,1500){ body(c,[&]{ Rng& r=c.rng; bool inter=c.idx%5==0; int n=3,nc=r.in(2,4),ne=inter?3:r.in(2,4); NeutrinoType nt=NTS[r.in(0,2)]; int nr=nt==both?2:1; D cz=rising(r,nc,-1,r.uni(-.3,.4)),E; double e=r.logu(10,300)*K.GeV; for(int i=0;i<ne;i++){ E.push_back(e); e*=r.uni(1.2,2); } double scale=1,tol=1e-10; marray<double,1> mc{(size_t)nc},me{(size_t)ne}; std::copy(cz.begin(),cz.end(),mc.begin()); std::copy(E.begin(),E.end(),me.begin()); typedef nuSQUIDSAtm<nuSQUIDS> A; bp::object S=py().mod.attr("nuSQUIDSAtm"),ntp=en("NeutrinoType",ntn(nt)),P; std::shared_ptr<A> cp; World w; Mute2 q;
  if(inter){ w=World::make(r,E[1],4,5000*K.km,.5); cp=std::make_shared<A>(mc,me,n,nt,true,w.lib); P=S(arr(cz),arr(E),n,ntp,true,w.lib); } else if(r.coin()){ cp=std::make_shared<A>(mc,me,n,nt,false); P=S(arr(cz),arr(E),n,ntp,false); } else { cp=std::make_shared<A>(mc,me,n,nt); P=S(arr(cz),arr(E),n,ntp); } A& C=*cp; std::string how=fmt("%d angles %d energies %s%s",nc,ne,ntn(nt),inter?" interacting":""); c.desc(how);
  CALL(Set_rel_error,1e-7); CALL(Set_abs_error,1e-9); CALL(Set_h,5*K.km); CALL(Set_h_max,200*K.km); CALL(Set_ProgressBar,false); if(r.coin(.3)) steppers(c,[&](const gsl_odeiv2_step_type* s){ C.Set_GSL_step(s); },P,r.in(2,4));
  auto turn=[&]{ bool b=r.coin(); double v=r.uni(0,1.5); unsigned i=r.in(0,nc); switch(r.in(0,19)){ case 0: CALL(Set_MixingAngle,0,r.in(1,3),v); break; case 1: CALL(Set_CPPhase,0,2,v); break; case 2: CALL(Set_SquareMassDifference,r.in(0,2),2e-3); break; case 3: CALL(Set_MixingParametersToDefault); break; case 4: CALL(Set_h_max,v*500*K.km+50*K.km,i); break; case 5: CALL(Set_h,v*K.km+K.km,i); break; case 6: CALL(Set_h_min,K.km*1e-3,i); break; case 7: CALL(Set_h_min,K.km*1e-3); break; case 8: CALL(Set_rel_error,1e-6*(1+v),i); break; case 9: CALL(Set_abs_error,1e-8,i); break; case 10: { unsigned k=r.in(0,4); CALL(Set_EvalThreads,k); CALL(Get_EvalThreads); break; } case 11: CALL(Set_IncludeOscillations,b); break; case 12: CALL(Set_GlashowResonance,b); break; case 13: CALL(Set_TauRegeneration,b); break; case 14: CALL(Set_AllowConstantDensityOscillationOnlyEvolution,b); break;
      case 15: { if(r.coin()){ double x=r.uni(1e-13,1e-12); CALL(Set_EvolLowPassCutoff,x); CALL(Set_EvolLowPassScale,x*.1); } break; } case 16: same(c,"Set_PositivityConstrain",cxx([&]{ C.Set_PositivityConstrain(b); return 0.; }),pyt([&]{ return P.attr("Set_PositivyConstrain")(b); })); same(c,"Set_PositivityConstrainStep",cxx([&]{ C.Set_PositivityConstrainStep(300*K.km); return 0.; }),pyt([&]{ return P.attr("Set_PositivyConstrainStep")(300*K.km); })); break; case 17: { double h=r.uni(5,40); auto em=std::make_shared<EarthAtm>(); em->SetAtmosphereHeight(h); bp::object pm=py().mod.attr("EarthAtm")(); pm.attr("SetAtmosphereHeight")(h); same(c,"Set_EarthModel",cxx([&]{ C.Set_EarthModel(em); return 0.; }),pyt([&]{ return P.attr("Set_EarthModel")(pm); })); break; } case 18: CALL(Get_MixingAngle,0,5); CALL(Set_MixingAngle,2,1,.1); break; default: CALL(Get_SquareMassDifference,1); } };
  for(int k=r.in(0,6);k>0;k--) turn();
  if(inter){ auto held=[&]{ bp::object L=P.attr("GetNeutrinoCrossSections")(); bp::extract<CrossSectionLibrary*> x(L); c.check("twin/cross-sections",x.check()&&x()==w.lib.get()&&C.GetNeutrinoCrossSections()==w.lib,"GetNeutrinoCrossSections of an ensemble gives others than were set"); }; held(); if(r.coin()){ World old=w; w=World::make(r,E[1],4,5000*K.km,.5); same(c,"SetNeutrinoCrossSections",cxx([&]{ C.SetNeutrinoCrossSections(w.lib); return 0.; }),pyt([&]{ return P.attr("SetNeutrinoCrossSections")(w.lib); })); held(); c.count("cross-sections-exchanged"); } }
  bool fl=r.coin(.8),omit=fl&&r.coin(); D v; for(int i=0;i<nc*ne*nr*n;i++) v.push_back(r.unit()); auto put=[&](auto m,std::vector<size_t> d){ m.resize(d); std::copy(v.begin(),v.end(),m.begin()); bp::object X=arr(v,d); same(c,"Set_initial_state",cxx([&]{ C.Set_initial_state(m,fl?flavor:mass); return 0.; }),pyt([&]{ return omit?P.attr("Set_initial_state")(X):P.attr("Set_initial_state")(X,en("Basis",fl?"flavor":"mass")); })); }; size_t a=nc,b=ne,d=n; if(nr==1) put(marray<double,3>(),{a,b,d}); else put(marray<double,4>(),{a,b,2,d});
  auto cmp=[&](A& C,bp::object P){ CALL(GetNumE); CALL(GetNumCos); CALL(GetNumNeu); CALL(GetNumRho); CALL(Get_EvalThreads); CALL(Get_MixingAngle,0,1); CALL(Get_CPPhase,0,2); CALL(Get_SquareMassDifference,2); auto x=C.GetERange(),y=C.GetCosthRange(); c.check("twin/energies",eqv(D(x.begin(),x.end()),list(P.attr("GetERange")()))&&eqv(D(y.begin(),y.end()),list(P.attr("GetCosthRange")())),""); for(int k=0;k<8;k++){ double e=k<2?E[r.in(0,ne-1)]:r.uni(E[0],E.back()),z=r.uni(cz[0],cz.back()); int i=r.in(0,n-1),q=r.in(0,nr-1); CALL(EvalFlavor,i,z,e,q); if(k==3) CALL(EvalFlavor,i,z,e); if(k==4) CALL(EvalFlavor,i,z,e,q,false); if(k==5){ double sc=r.logu(.01,100); std::vector<bool> m(n); same(c,"EvalFlavor-mask",cxx([&]{ return C.EvalFlavor(i,z,e,q,sc,m); }),pyt([&]{ bp::list l; for(int k=0;k<n;k++) l.append(false); return py().mod.attr("EvalFlavor")(P,i,z,e,q,sc,l); }),tol); } if(k==6) CALL(EvalFlavor,n+2,z,e,q); if(k==7) CALL(EvalFlavor,i,z,E.back()*3,q); }
    for(int q=0;q<nr;q++){ auto s=C.GetStates(q); bp::object t=q==0&&r.coin()?P.attr("GetStates")():P.attr("GetStates")(q); D g=list(py().ns["floats"](t)); bool ok=g.size()==s.size()&&bp::len(t)==(long)s.extent(0); size_t k=0; for(double z:s){ if(k<g.size()&&!Ctx::close(z,g[k],1e-9,1e-9)) ok=false; k++; } c.check("twin/states",ok,"GetStates"); } for(int i=0;i<nc;i++) for(int k=0;k<2;k++){ int f=r.in(0,n-1),e=r.in(0,ne-1),q=r.in(0,nr-1); same(c,"member",cxx([&]{ return C.GetnuSQuIDS(i).EvalFlavorAtNode(f,e,q); }),pyt([&]{ return P.attr("GetnuSQuIDS")(i).attr("EvalFlavorAtNode")(f,e,q); }),tol); } };
  cmp(C,P); { std::string a,b; q.o.str(""); Ans x=cxx([&]{ C.EvolveState(); return 0.; }); a=q.o.str(); q.o.str(""); Ans y=pyt([&]{ return P.attr("EvolveState")(); }); b=q.o.str(); same(c,"EvolveState",x,y); } cmp(C,P); c.count("ensembles-evolved");
  if(r.coin(.5)){ std::string f=c.tmp+"/a.h5",g=c.tmp+"/b.h5"; unlink(f.c_str()); unlink(g.c_str()); same(c,"WriteStateHDF5",cxx([&]{ C.WriteStateHDF5(f,true); return 0.; }),pyt([&]{ return P.attr("WriteStateHDF5")(g,true); })); std::string d=fdiff(f,g,1e-9); c.check("twin/file",d.empty(),d); c.count("files"); same(c,"WriteStateHDF5",cxx([&]{ C.WriteStateHDF5(f,false); return 0.; }),pyt([&]{ return P.attr("WriteStateHDF5")(f,false); })); A C2(f); bp::object P2=S(g); cmp(C2,P2); unlink(f.c_str()); unlink(g.c_str()); }
  // what is handed out lives as long as it is held
  if(r.coin()){ bp::object m=P.attr("GetnuSQuIDS")(r.in(0,nc-1)); double x=bp::extract<double>(m.attr("EvalFlavorAtNode")(0,0,0)); P=bp::object(); PyGC_Collect(); c.check("lifetime/member",eq(x,bp::extract<double>(m.attr("EvalFlavorAtNode")(0,0,0))),"a member changed when the ensemble was dropped"); c.count("members-outlive"); } (void)scale; c.nontrivial(how+fmt("%g",E[0])); }); }
VH_GROUP("lifetimes",120,2500){ body(c,[&]{ Rng& r=c.rng; Mute2 q; Two t=two(r,c,c.idx%5==0); wellSet(r,c,t); Medium m=medium(r,c.tmp,1000*K.km,t.inter?r.in(1,3):-1); c.desc(t.how+" "+m.how); bp::object P=t.p; P.attr("Set_Body")(m.pb); P.attr("Set_Track")(m.pt); t.c->Set_Body(m.cb); t.c->Set_Track(m.ct); initial(r,c,t); bool drop=r.coin(); if(drop){ m.pb=bp::object(); m.pt=bp::object(); PyGC_Collect(); }
  P.attr("EvolveState")(); t.c->EvolveState(); compare(c,t,"orphaned"); bp::object e=P.attr("GetERange")(),s=P.attr("GetState")(0,0),b=P.attr("GetBody")(),tr=P.attr("GetTrack")(); D v=list(s.attr("GetComponents")()); double x=bp::extract<double>(tr.attr("GetX")()); double rho=bp::extract<double>(b.attr("density")(tr));
  if(bp::len(e)) e.attr("fill")(-3.); s.attr("SetAllComponents")(9.); compare(c,t,"results-changed"); t.p=bp::object(); P=bp::object(); PyGC_Collect(); D w=list(s.attr("GetComponents")()); c.check("lifetime/state",w.size()==v.size()&&w[0]==9.,"the state changed"); c.check("lifetime/track",eq(x,bp::extract<double>(tr.attr("GetX")()))&&eq(rho,bp::extract<double>(b.attr("density")(tr))),"body or track changed when the object was dropped"); c.count("outlived"); c.nontrivial(t.how+m.how);
  if(c.idx%6==0){ bp::object S=py().mod.attr("nuSQUIDS"),A=arr(t.E.size()>1?t.E:D{1e9,2e9}),nt=en("NeutrinoType","both"); double k=left0([&]{ bp::object p=S(A,3,nt); p.attr("GetERange")(); p.attr("GetState")(0,0).attr("GetComponents")(); p.attr("Set_Body")(b); p.attr("GetBody")(); },15); c.check("lifetime/leak",k<.7,fmt("%g blocks left by every object",k)); c.count("leak-tests"); } }); }
// calls which do not fit leave an exception and the object as it was
VH_GROUP("junk",260,6000){ body(c,[&]{ Rng& r=c.rng; Mute2 q; bp::object M=py().mod,S=M.attr("nuSQUIDS"),R=bp::import("random").attr("Random")(r.u64()>>1),P; int kind=c.idx%4; H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr); if(chdir(c.tmp.c_str())) return;
  if(kind==0) P=S(3,en("NeutrinoType","neutrino")); else if(kind==1) P=S(arr({1e9,2e9,4e9}),3,en("NeutrinoType","both")); else if(kind==2) P=M.attr("nuSQUIDSAtm")(arr({-1,0}),arr({1e9,2e9}),3,en("NeutrinoType","both")); else P=R.attr("choice")(bp::make_tuple(M.attr("SU_vector")(3),M.attr("EarthAtm")(),M.attr("Const")(),M.attr("CrossSectionLibrary")(),M.attr("GlashowResonanceCrossSection")(),M.attr("Vacuum").attr("Track")(1e9)));
  bp::list names(bp::object(bp::handle<>(PyObject_Dir(P.ptr())))); std::vector<std::string> call; for(long i=0;i<bp::len(names);i++){ std::string n=bp::extract<std::string>(names[i]); if(n[0]=='_'||n=="EvolveState"||n=="InitializeInteractions"||n.find("Write")==0||n.find("Set_h")==0||n=="Set_EvalThreads") continue; call.push_back(n); }
  for(int k=0;k<12;k++){ std::string n=r.pick(call); bp::object f=P.attr(n.c_str()); if(!PyCallable_Check(f.ptr())) continue; bp::list a; for(int i=r.in(0,5);i>0;i--) a.append(py().ns["junk"](R,M)); c.desc(n+" with "+str(bp::object(bp::handle<>(PyObject_Repr(a.ptr())))).substr(0,200)); bool ok=true; Raised e; try{ bp::object x=bp::object(bp::handle<>(PyObject_CallObject(f.ptr(),bp::tuple(a).ptr()))); }catch(bp::error_already_set&){ ok=false; e=raised(); } c.count(ok?"junk-accepted":"junk-refused"); c.check("junk/exception",ok||(!e.type.empty()&&!e.is("SystemError")),vh::S().desc+": "+e.type+" "+e.text); c.check("junk/pending",!PyErr_Occurred(),vh::S().desc); PyErr_Clear(); c.nontrivial(n+fmt("%d",(int)bp::len(a))); }
  if(kind<2){ same(c,"GetNumNeu",cxx([&]{ return 3.; }),pyt([&]{ return P.attr("GetNumNeu")(); })); } }); }
// the remaining classes
VH_GROUP("constants",40,400){ body(c,[&]{ Rng& r=c.rng; squids::Const C; double tol=0; bp::object P=py().mod.attr("Const")();
#define CST(N,V) { bp::extract<double> x(P.attr(#N)); c.check("constants/value",x.check()&&eq(x(),V),#N); bool ro=false; try{ P.attr(#N)=1.; }catch(bp::error_already_set&){ raised(); ro=true; } c.check("constants/read-only",ro,#N); c.count("constants"); }
  CST(GF,C.GF) CST(Na,C.Na) CST(PeV,C.PeV) CST(TeV,C.TeV) CST(GeV,C.GeV) CST(MeV,C.MeV) CST(keV,C.keV) CST(eV,C.eV) CST(kg,C.kg) CST(gr,C.gr) CST(meter,C.meter) CST(cm,C.cm) CST(km,C.km) CST(fermi,C.fermi) CST(angstrom,C.angstrom) CST(AU,C.AU) CST(parsec,C.parsec) CST(pb,C.picobarn) CST(fb,C.femtobarn) CST(sec,C.sec) CST(hour,C.hour) CST(day,C.day) CST(year,C.year) CST(picobarn,C.picobarn) CST(femtobarn,C.femtobarn) CST(Pascal,C.Pascal) CST(atm,C.atm) CST(psi,C.psi) CST(Kelvin,C.Kelvin) CST(C,C.C) CST(A,C.A) CST(T,C.T)
  for(int k=0;k<8;k++){ unsigned i=r.in(0,3),j=r.in(0,7); double v=r.uni(-2,2); CALL(SetMixingAngle,i,j,v); CALL(GetMixingAngle,i,j); CALL(SetPhase,i,j,v); CALL(GetPhase,i,j); same(c,"SetSquareMassDifference",cxx([&]{ C.SetEnergyDifference(j,v); return 0.; }),pyt([&]{ return P.attr("SetSquareMassDifference")(j,v); })); same(c,"GetSquareMassDifference",cxx([&]{ return C.GetEnergyDifference(j); }),pyt([&]{ return P.attr("GetSquareMassDifference")(j); })); }
  auto is=[&](const char* e,const char* v,int want){ bp::extract<long> x(en(e,v)); c.check("constants/enumerations",x.check()&&x()==want,std::string(e)+"."+v); c.count("enumerators"); }; typedef NeutrinoCrossSections X;
  is("Basis","mass",mass); is("Basis","flavor",flavor); is("Basis","interaction",interaction); is("NeutrinoType","neutrino",neutrino); is("NeutrinoType","antineutrino",antineutrino); is("NeutrinoType","both",both); is("NeutrinoCrossSections_NeutrinoFlavor","electron",X::electron); is("NeutrinoCrossSections_NeutrinoFlavor","muon",X::muon); is("NeutrinoCrossSections_NeutrinoFlavor","tau",X::tau); is("NeutrinoCrossSections_NeutrinoFlavor","sterile",X::sterile); is("NeutrinoCrossSections_NeutrinoType","neutrino",X::neutrino); is("NeutrinoCrossSections_NeutrinoType","antineutrino",X::antineutrino); is("NeutrinoCrossSections_Current","CC",X::CC); is("NeutrinoCrossSections_Current","NC",X::NC); is("NeutrinoCrossSections_Current","GR",X::GR); is("PDGCode","electron",nusquids::electron); is("PDGCode","isoscalar_nucleon",isoscalar_nucleon); is("PDGCode","proton",proton); is("PDGCode","neutron",neutron);
  for(int k=0;k<4;k++){ double a=r.uni(1,10),b=r.uni(11,1e4); unsigned n=r.in(0,30); for(int l=0;l<2;l++){ D v,w; Ans x=cxx([&]{ auto m=l?logspace(a,b,n):linspace(a,b,n); v.assign(m.begin(),m.end()); return 0.; }),y=pyt([&]{ w=list(py().mod.attr(l?"logspace":"linspace")(a,b,n)); return bp::object(); }); same(c,l?"logspace":"linspace",x,y); c.check("constants/grid",eqv(v,w),""); } } c.nontrivial(c.idx); }); }
VH_GROUP("spectra",60,1000){ body(c,[&]{ Rng& r=c.rng; double tol=0; typedef NeutrinoCrossSections X; static const char* fl[]={"electron","muon","tau","sterile"}; auto F=[&](int f){ return en("NeutrinoCrossSections_NeutrinoFlavor",fl[f]); }; auto T=[&](int t){ return en("NeutrinoCrossSections_NeutrinoType",t?"antineutrino":"neutrino"); }; auto U=[&](int k){ return en("NeutrinoCrossSections_Current",k==0?"CC":k==1?"NC":"GR"); };
  auto ask=[&](const NeutrinoCrossSections& C,bp::object P,double lo,double hi){ for(int k=0;k<10;k++){ int f=r.in(0,3),t=r.in(0,1),u=r.in(0,2); double a=r.logu(lo,hi),b=a*r.unit(); if(b<lo) b=lo; X::NeutrinoFlavor ff=X::NeutrinoFlavor(f); X::NeutrinoType tt=t?X::antineutrino:X::neutrino; X::Current uu=u==0?X::CC:u==1?X::NC:X::GR; if(k==0) a=hi*5; same(c,"TotalCrossSection",cxx([&]{ return C.TotalCrossSection(a,ff,tt,uu); }),pyt([&]{ return P.attr("TotalCrossSection")(a,F(f),T(t),U(u)); })); same(c,"SingleDifferentialCrossSection",cxx([&]{ return C.SingleDifferentialCrossSection(a,b,ff,tt,uu); }),pyt([&]{ return P.attr("SingleDifferentialCrossSection")(a,b,F(f),T(t),U(u)); })); c.count("cross-sections"); } };
  { GlashowResonanceCrossSection g; bp::object P=py().mod.attr("GlashowResonanceCrossSection"); bp::object PC=P; P=P(); ask(g,P,1e15,3e16); for(int f=0;f<4;f++) same(c,"WDecayBranchingFraction",cxx([&]{ return g.WDecayBranchingFraction(X::NeutrinoFlavor(f)); }),pyt([&]{ return PC.attr("WDecayBranchingFraction")(F(f)); })); NullCrossSections z; bp::object Q=py().mod.attr("NullCrossSections")(); ask(z,Q,1e9,1e12);
    CrossSectionLibrary C; bp::object L=py().mod.attr("CrossSectionLibrary")(); auto nul=std::make_shared<NullCrossSections>(); auto gl=std::make_shared<GlashowResonanceCrossSection>(); static const std::pair<const char*,PDGCode> tg[]={{"electron",nusquids::electron},{"proton",proton},{"neutron",neutron},{"isoscalar_nucleon",isoscalar_nucleon}}; for(int k=0;k<6;k++){ auto& t=tg[r.in(0,3)]; bool which=r.coin(); if(k%2==0) same(c,"addTarget",cxx([&]{ C.addTarget(t.second,which?std::shared_ptr<NeutrinoCrossSections>(nul):std::shared_ptr<NeutrinoCrossSections>(gl)); return 0.; }),pyt([&]{ return L.attr("addTarget")(en("PDGCode",t.first),which?Q:P); })); for(auto& t:tg){ same(c,"hasTarget",cxx([&]{ return C.hasTarget(t.second); }),pyt([&]{ return L.attr("hasTarget")(en("PDGCode",t.first)); })); bp::object got; std::shared_ptr<const NeutrinoCrossSections> want; same(c,"crossSectionForTarget",cxx([&]{ want=C.crossSectionForTarget(t.second); return 0.; }),pyt([&]{ got=L.attr("crossSectionForTarget")(en("PDGCode",t.first)); return bp::object(); })); c.check("spectra/target",want?got.ptr()==(want==nul?Q:P).ptr():got.is_none(),std::string("the cross section for ")+t.first); } c.count("targets"); } }
  { xs::Dir dir(c.tmp); std::string b=dir.p+"/x_",h=dir.p+"/x.h5",h2=dir.p+"/y.h5"; xs::Tab tab; for(bool ok=false;!ok;){ tab=xs::make(r,r.in(0,1),r.coin()); ok=true; for(int i=1;i<tab.ne;i++) if(tab.e[i]<tab.e[i-1]*1.05) ok=false; } if(r.coin()) xs::writeText(b,tab); else { b=dir.p+"/in.h5"; xs::writeHDF(b,tab,1); }
    bp::object P,P2; std::shared_ptr<NeutrinoDISCrossSectionsFromTables> C; Ans x=cxx([&]{ C=std::make_shared<NeutrinoDISCrossSectionsFromTables>(b); return 0.; }),y=pyt([&]{ P=py().mod.attr("NeutrinoDISCrossSectionsFromTables")(b); return bp::object(); }); same(c,"NeutrinoDISCrossSectionsFromTables",x,y); if(x.ok&&y.ok){ ask(*C,P,C->GetEmin(),C->GetEmax()); same(c,"GetEmin",cxx([&]{ return C->GetEmin(); }),pyt([&]{ return P.attr("GetEmin")(); })); same(c,"GetEmax",cxx([&]{ return C->GetEmax(); }),pyt([&]{ return P.attr("GetEmax")(); })); unlink(h.c_str()); unlink(h2.c_str()); unsigned lev=r.in(0,9); same(c,"WriteHDF",cxx([&]{ C->WriteHDF(h,lev); return 0.; }),pyt([&]{ return P.attr("WriteHDF")(h2,lev); })); { struct stat u,v; c.check("spectra/compression",!stat(h.c_str(),&u)&&!stat(h2.c_str(),&v)&&u.st_size==v.st_size,fmt("the files have different sizes (level %u)",lev)); } std::string df=fdiff(h,h2,0); c.check("spectra/file",df.empty(),df); P2=py().mod.attr("NeutrinoDISCrossSectionsFromTables")(h2); NeutrinoDISCrossSectionsFromTables C2(h); ask(C2,P2,C->GetEmin()*1.001,C->GetEmax()*.999); std::string b2=dir.p+"/z_",b3=dir.p+"/w_"; same(c,"WriteText",cxx([&]{ C->WriteText(b2); return 0.; }),pyt([&]{ return P.attr("WriteText")(b3); })); { auto P3=py().mod.attr("NeutrinoDISCrossSectionsFromTables")(b3); NeutrinoDISCrossSectionsFromTables C3(b2); ask(C3,P3,C3.GetEmin()*1.001,C3.GetEmax()*.999); }
      // the default library is read from where the data are
      { const char* o=getenv("NUSQUIDS_DATA_PATH"); std::string was=o?o:""; std::string dp=dir.p; setenv("NUSQUIDS_DATA_PATH",dp.c_str(),1); bp::object L; CrossSectionLibrary D; auto load=[&]{ Ans x=cxx([&]{ D=loadDefaultCrossSections(); return 0.; }),y=pyt([&]{ L=py().mod.attr("loadDefaultCrossSections")(); return bp::object(); }); same(c,"loadDefaultCrossSections",x,y); return x.ok&&y.ok; }; load(); mkdir((dp+"/xsections").c_str(),0777); C->WriteHDF(dp+"/xsections/csms_proton.h5"); load(); C->WriteHDF(dp+"/xsections/csms_neutron.h5"); if(load()){ for(const char* t:{"proton","neutron"}) ask(C2,L.attr("crossSectionForTarget")(en("PDGCode",t)),C->GetEmin()*1.001,C->GetEmax()*.999); same(c,"hasTarget",cxx([&]{ return D.hasTarget(nusquids::electron); }),pyt([&]{ return L.attr("hasTarget")(en("PDGCode","electron")); })); c.count("default-libraries"); } for(const char* f:{"/xsections/csms_proton.h5","/xsections/csms_neutron.h5"}) unlink((dp+f).c_str()); rmdir((dp+"/xsections").c_str()); if(o) setenv("NUSQUIDS_DATA_PATH",was.c_str(),1); else unsetenv("NUSQUIDS_DATA_PATH"); }
      c.count("tables"); } unlink(h.c_str()); unlink(h2.c_str()); }
  { int n=r.in(3,12); D e; double v=r.logu(1,1e5)*1e9; for(int i=0;i<n;i++){ e.push_back(v); v*=r.uni(1.1,2); } marray<double,1> m{(size_t)n}; std::copy(e.begin(),e.end(),m.begin()); TauDecaySpectra C(m); bp::object P=py().mod.attr("TauDecaySpectra")(arr(e)); CALL(GetTauToHadronBranchingRatio); CALL(GetTauToLeptonBranchingRatio); for(int k=0;k<12;k++){ unsigned i=r.in(1,n-1),j=r.in(0,n-1),t=r.in(0,1); CALL(dNdEnu_All,i,j,t); CALL(dNdEnu_Lep,i,j,t); CALL(dNdEle_All,i,j,t); CALL(dNdEle_Lep,i,j,t); double a=e[i],b=a*r.unit(); CALL(TauDecayToLepton,a,b); CALL(TauDecayToHadron,a,b); CALL(TauDecayToAll,a,b); CALL(TauDecayToPion,a,b); CALL(TauDecayToRho,a,b); CALL(TauDecayToA1,a,b); c.count("tau-spectra"); } } c.nontrivial(c.idx); (void)tol; }); }
VH_GROUP("vectors",200,4000){ body(c,[&]{ Rng& r=c.rng; typedef squids::SU_vector V; bp::object S=py().mod.attr("SU_vector"); int n=r.in(2,5); auto mk=[&](V& a,bp::object& p){ D v; for(int i=0;i<n*n;i++) v.push_back(r.gauss()); a=V(v); p=S(plist(v,r.coin())); }; V a,b; bp::object p,q; mk(a,p); mk(b,q); auto cmp=[&](const V& x,const bp::object& o,const char* w){ D v=list(o.attr("GetComponents")()),u=x.GetComponents(); bool ok=u.size()==v.size(); for(size_t i=0;ok&&i<v.size();i++) ok=Ctx::close(u[i],v[i],1e-12,1e-13); c.check("vectors/value",ok,std::string(w)+": "+vh::join(u)+" in Python "+vh::join(v)); c.count("vectors"); }; cmp(a,p,"constructed"); c.desc(fmt("dimension %d",n));
  { V& C=a; bp::object P=p; double tol=0; CALL(Dim); CALL(Size); } double k=r.uni(.5,3); bp::object K1(k); cmp(a+b,p+q,"a+b"); cmp(a-b,p-q,"a-b"); cmp(a*k,p*K1,"a*k"); cmp(k*a,K1*p,"k*a"); cmp(-a,bp::object(bp::handle<>(PyNumber_Negative(p.ptr()))),"-a"); c.near("vectors/product",bp::extract<double>(p*q),a*b,1e-12,1e-12,"a*b"); c.check("vectors/equal",bool(p==p)&&!bool(p==q)&&(a==a),"==");
  V d(a); bp::object s=S(p); cmp(d,s,"copied"); s+=q; d+=b; cmp(d,s,"+="); s-=p; d-=a; cmp(d,s,"-="); s*=K1; d*=k; cmp(d,s,"*="); s*=bp::object(1/k); d/=k; cmp(d,s,"/="); cmp(a,p,"untouched"); squids::Const cc; bp::object pc=py().mod.attr("Const")(); double th=r.uni(0,1); cc.SetMixingAngle(0,1,th); pc.attr("SetMixingAngle")(0,1,th); d.RotateToB1(cc); s.attr("RotateToB1")(pc); cmp(d,s,"RotateToB1"); cc.SetPhase(0,1,.4); pc.attr("SetPhase")(0,1,.4); d.RotateToB0(cc); s.attr("RotateToB0")(pc); cmp(d,s,"RotateToB0"); cmp(a.Rotate(0,1,th,.3),p.attr("Rotate")(0,1,th,.3),"Rotate"); cmp(a.Transpose(),p.attr("Transpose")(),"Transpose"); cmp(a.Real(),p.attr("Real")(),"Real"); cmp(a.Imag(),p.attr("Imag")(),"Imag"); d.WeightedRotation(cc,b,cc); s.attr("WeightedRotation")(pc,q,pc); cmp(d,s,"WeightedRotation");
  int i=r.in(0,n-1); cmp(V::Projector(n,i),S.attr("Projector")(n,i),"Projector"); cmp(V::Identity(n),S.attr("Identity")(n),"Identity"); cmp(V::PosProjector(n,i),S.attr("PosProjector")(n,i),"PosProjector"); cmp(V::NegProjector(n,i),S.attr("NegProjector")(n,i),"NegProjector"); cmp(V::Generator(n,i),S.attr("Generator")(n,i),"Generator"); s.attr("SetAllComponents")(2.5); d.SetAllComponents(2.5); cmp(d,s,"SetAllComponents"); std::ostringstream o; o<<a; c.check("vectors/text",str(bp::object(bp::handle<>(PyObject_Str(p.ptr()))))==o.str(),"str"); { Ans x=cxx([&]{ V z=a+V(n+1); return 0.; }),y=pyt([&]{ p+S(n+1); return bp::object(); }); same(c,"mismatch",x,y); } { Ans x=cxx([&]{ V z(D(5)); return 0.; }),y=pyt([&]{ S(plist(D(5))); return bp::object(); }); same(c,"bad-size",x,y); }
  if(c.idx%20==0){ double k=left([&]{ p.attr("GetComponents")(); S(p)+q; }); c.check("vectors/leak",k<.5,fmt("%g blocks left by every call",k)); c.count("leak-tests"); } c.nontrivial(fmt("%d %g",n,k)); }); }
