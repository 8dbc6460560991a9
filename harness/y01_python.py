"""Y01: the Python interface gives the same answers as the library (numpy is the reference)."""
import gc, os, sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import contextlib
import numpy as np
from pyvp import prop, main
with contextlib.redirect_stdout(sys.stderr): import brille # tells of missing plotting libraries
from brille import _brille
from brille.utils import create_bz, create_grid
RL=brille.RotatesLike; LU=brille.LengthUnit

# ---------------------------------------------------------------- generators
def crystal(c,lo=3.0,hi=8.0,hall=None):
    """a Hall setting and a cell which has its symmetry"""
    h=hall or c.i(1,530); W=np.array(brille.Symmetry(h).W,dtype=float)
    L=np.array([c.real(lo,hi) for _ in range(3)]); an=np.radians([c.real(70,110) for _ in range(3)])
    co=np.cos(an); g=np.outer(L,L)*np.array([[1,co[2],co[1]],[co[2],1,co[0]],[co[1],co[0],1]])
    g=sum(w.T@g@w for w in W)/len(W)
    l=np.sqrt(np.diag(g)); a=np.degrees(np.arccos(np.clip([g[1,2]/l[1]/l[2],g[0,2]/l[0]/l[2],g[0,1]/l[0]/l[1]],-1,1)))
    for x in (60.,90.,120.): a[np.abs(a-x)<1e-6]=x
    for i in range(3):
        for j in range(i):
            if abs(l[i]-l[j])<1e-9: l[i]=l[j]
    c.note("hall",h); c.note("lengths",l.tolist()); c.note("angles",a.tolist())
    return h,l,a,W
def basis_vectors(l,a):
    """rows a, b, c with a along x and b in the xy plane"""
    co=np.cos(np.radians(a)); s=np.sin(np.radians(a[2])); cx=co[1]; cy=(co[0]-co[1]*co[2])/s
    return np.array([[l[0],0,0],[l[1]*co[2],l[1]*s,0],[l[2]*cx,l[2]*cy,l[2]*np.sqrt(1-cx*cx-cy*cy)]])
def lattice(c,k):
    h,l,a,W=k
    return _brille.Lattice(l,a,brille.Symmetry(h),snap_to_symmetry=False)
def zone(c,k,**kw):
    o=dict(use_primitive=not c.p(20),time_reversal_symmetry=c.b(),wedge_search=not c.p(10)); o.update(kw)
    c.note("zone",o)
    try: return brille.BrillouinZone(lattice(c,k),**o)
    except RuntimeError as e:
        if "Failed to find an irreducible" in str(e): c.label("no irreducible zone"); c.discard()
        raise
TYPES=("dd","dc","cc")
def crowded(bz):
    """two vertices are close to each other: tetgen adds very many points to a mesh"""
    v=np.array(bz.ir_polyhedron.to_Cartesian().vertices); d=np.linalg.norm(v[:,None]-v[None],axis=2); return (d+np.eye(len(v))*d.max()).min()<0.06*d.max()
def grid(c,bz,kind=None,types=None):
    kind=kind or c.pick(["Trellis","Mesh","Nest"]); types=types or c.pick(TYPES); v=bz.ir_polyhedron.volume; f=c.real(0.15,0.6)
    if kind=="Mesh" and crowded(bz): kind="Trellis"
    c.note("grid",(kind,types,f)); c.label(kind); cls=getattr(_brille,f"BZ{kind}Q{types}")
    if kind=="Trellis": return cls(bz,v*f,c.p(30))
    if kind=="Mesh": return cls(bz,v*f,c.i(1,3),-1)
    return cls(bz,v*f,5)
def numbers(c,shape,cplx):
    n=int(np.prod(shape)); r=np.random.default_rng(c.draw(1<<30)); x=r.integers(-64,65,n)/16.0
    if cplx: x=x+1j*(r.integers(-64,65,n)/16.0)
    return x.reshape(shape)
def qpoints(c,n=None):
    n=n if n is not None else c.i(1,7); r=np.random.default_rng(c.draw(1<<30)); m=c.draw(3)
    return r.integers(-24,25,(n,3))/8.0 if m==0 else r.uniform(-3,3,(n,3)) if m==1 else r.integers(-2,3,(n,3)).astype(float)
LAYOUTS=["C","F","sliced","reversed","readonly","field","list","other type","byte order","offset","repeated"]
def variant(c,x,names=None):
    """an array equal to x with another layout; returns (array, name)"""
    x=np.ascontiguousarray(x); how=c.pick(names or LAYOUTS); nd=x.ndim
    if how=="F": y=np.asfortranarray(x)
    elif how=="sliced":
        ax=c.draw(nd); st=c.i(2,3); sh=list(x.shape); sh[ax]=sh[ax]*st+1; big=np.full(sh,77,x.dtype); sl=[slice(None)]*nd; sl[ax]=slice(1,None,st) if st*x.shape[ax]+1>1 else slice(0,0)
        sl[ax]=slice(1,1+st*x.shape[ax],st); big[tuple(sl)]=x; y=big[tuple(sl)]
    elif how=="reversed":
        axes=[i for i in range(nd) if c.b()] or [nd-1]; sl=tuple(slice(None,None,-1) if i in axes else slice(None) for i in range(nd)); y=x[sl].copy()[sl]
    elif how=="readonly": y=x.copy(); y.flags.writeable=False
    elif how=="field":
        s=np.zeros(x.shape,dtype=[("pad",x.dtype),("v",x.dtype)]); s["pad"]=55; s["v"]=x; y=s["v"]
    elif how=="list": y=x.tolist()
    elif how=="other type":
        for t in (np.int32,np.int64,np.float32,np.float64,np.complex64):
            if np.dtype(t).kind=="c" and x.dtype.kind!="c": continue
            if t is np.float64 and x.dtype.kind!="i": continue
            if x.dtype.kind=="c" and np.dtype(t).kind!="c": continue
            if x.dtype.kind=="i" and np.dtype(t).kind!="i": continue
            z=x.astype(t)
            if t!=x.dtype and np.array_equal(z.astype(x.dtype),x): y=z; break
        else: y=x.copy()
    elif how=="byte order": y=x.astype(x.dtype.newbyteorder())
    elif how=="offset":
        big=np.full([n+2 for n in x.shape],33,x.dtype); sl=tuple(slice(1,n+1) for n in x.shape); big[sl]=x; y=big[sl]
    elif how=="repeated":
        if x.shape[0]>1 and (x==x[:1]).all(): y=np.broadcast_to(x[0],x.shape)
        else: y=x.copy()
    else: y=x.copy()
    assert np.array_equal(np.asarray(y).astype(x.dtype),x)
    c.label("layout "+how); return y,how
def frozen(y): return np.array(y,copy=True)
def same(a,b):
    if isinstance(a,(tuple,list)) and isinstance(b,(tuple,list)): return len(a)==len(b) and all(same(x,y) for x,y in zip(a,b))
    a,b=np.asarray(a),np.asarray(b); return a.shape==b.shape and a.dtype==b.dtype and np.array_equal(a,b,equal_nan=a.dtype.kind in "fc")
def close(a,b,tol=1e-10):
    a,b=np.asarray(a),np.asarray(b); return a.shape==b.shape and (a.size==0 or np.max(np.abs(a-b))<=tol*(1+np.max(np.abs(b))))
def relayout(c,tag,f,*arrays):
    """f(*arrays) is the same for any layout of the arrays, which are left alone"""
    want=f(*[np.ascontiguousarray(a) for a in arrays]); vs=[variant(c,a) for a in arrays]; before=[frozen(v) for v,_ in vs]
    c.note(tag,[(h,np.asarray(v).shape,np.asarray(v).strides,str(np.asarray(v).dtype)) for v,h in vs])
    got=f(*[v for v,_ in vs]); c.nontrivial(any(h not in ("C",) for _,h in vs))
    c.check(same(got,want),tag,lambda: f"{[h for _,h in vs]}: {got} is not {want}")
    for (v,_),b in zip(vs,before): c.check(np.array_equal(np.asarray(v),b),tag+" changes its input",str(v))
    return want

# ---------------------------------------------------------------- any layout
@prop("layouts",2500,60000)
def layouts(c):
    k=crystal(c); h,l,a,W=k; sym=brille.Symmetry(h); what=c.draw(5)
    if what==0:
        def num(x): return (x.a,x.b,x.c,x.alpha,x.beta,x.gamma,x.real_vectors,x.reciprocal_vectors)
        relayout(c,"lattice lengths and angles",lambda p,q: num(_brille.Lattice(p,q,sym,snap_to_symmetry=False)),l,a)
        V=basis_vectors(l,a); row=c.b(); V=V if row else V.T
        relayout(c,"lattice vectors",lambda p: num(_brille.Lattice(p,sym,snap_to_symmetry=False,row_vectors=row)),V)
        x=brille.Lattice(np.asarray(variant(c,V)[0]),symmetry=sym,snap_to_symmetry=False,row_vectors=row); y=_brille.Lattice(V,sym,snap_to_symmetry=False,row_vectors=row); c.check(same(num(x),num(y)),"lattice helper")
    elif what==1:
        n=c.i(1,6); pos=numbers(c,(n,3),False); t=[c.i(0,3) for _ in range(n)]
        relayout(c,"basis",lambda p: (lambda b:(b.positions,b.types,b.size))(brille.Basis(p,t)),pos)
        w=np.array(sym.w); relayout(c,"symmetry",lambda p,q: (lambda s:(s.W,s.w,s.size))(brille.Symmetry(p,q)),np.array(sym.W),w)
        s2=brille.Symmetry(np.asarray(variant(c,np.array(sym.W))[0]),np.asarray(variant(c,w)[0])); c.check(s2==sym,"symmetry from its own W and w")
    elif what==2:
        m=np.array([[0,0,0],[1,0,0],[0,1,0],[0,0,1],[1,1,0],[1,0,1],[0,1,1],[1,1,1]],dtype=float)*np.array([c.i(1,5) for _ in range(3)])+np.array([c.i(-2,2) for _ in range(3)]); m=m[c.perm(8)]
        relayout(c,"polyhedron",lambda p: (lambda q:(q.vertices,q.points,q.normals,q.volume,q.faces))(brille.Polyhedron(p)),m)
    elif what==3:
        bz=zone(c,k); Q=qpoints(c); th=c.i(0,2)
        if c.p(15): Q[:]=Q[0]
        relayout(c,"isinside",lambda q: bz.isinside(q),Q/4); relayout(c,"moveinto",lambda q: bz.moveinto(q,th),Q)
        if bz.pointgroup_ok if hasattr(bz,"pointgroup_ok") else True:
            relayout(c,"ir_moveinto",lambda q: bz.ir_moveinto(q,th),Q); relayout(c,"ir_moveinto_wedge",lambda q: bz.ir_moveinto_wedge(q,th),Q)
    else:
        bz=zone(c,k); types=c.pick(TYPES); g=grid(c,bz,types=types); n=len(g.rlu); modes=c.i(1,3)
        ve=c.pick([(1,),(2,),()]); vals=numbers(c,(n,modes)+ve,types[0]=="c"); vecs=numbers(c,(n,modes)+c.pick([(3,),(2,3),(6,)]),types[1]=="c"); nv=int(np.prod(vecs.shape[2:])); ns=int(np.prod(ve)) if ve else 1
        if c.p(20): vals[:]=vals[:1]
        vel=np.array([ns,0,0,0,c.pick([3,4])],dtype=np.int32); wel=np.array([0,nv,0,0,c.pick([3,4])],dtype=np.int32); Q=qpoints(c); par=c.b(); w1=np.array([1.,2.,3.]); w2=np.array([2.,0.5,1.])
        def full(cost):
            def f(p,pe,q,qe,Qi,*w):
                g2=g
                if cost: g2.fill(p,np.concatenate([np.asarray(pe),[0,0]]).astype(np.int32) if isinstance(pe,list) else pe,w[0],q,qe,w[1])
                else: g2.fill(p,pe,q,qe)
                return g2.ir_interpolate_at(Qi,par,2),g2.values.copy(),g2.vectors.copy()
            return f
        if c.b(): relayout(c,"fill and interpolate",full(False),vals,vel,vecs,wel,Q)
        else: relayout(c,"fill with costs and interpolate",full(True),vals,np.append(vel,[0,0]).astype(np.int32),vecs,np.append(wel,[0,c.i(0,4)]).astype(np.int32),Q,w1,w2)
        if hasattr(g,"interpolate_at"):
            inside,_=bz.moveinto(Q) # points of the first zone are refused where the grid does not have them
            try: g.interpolate_at(inside,False,1,True); ok=True
            except (RuntimeError,IndexError): ok=False; c.label("outside the grid")
            if ok: relayout(c,"interpolate_at",lambda q: g.interpolate_at(q,par,2,True),inside)
        if c.p(30):
            # costs given through differently laid out flags sort the modes in the same way
            fl=np.array([0,3,0,c.i(0,4)],dtype=np.int32)
            def srt(f1,a1,f2,a2):
                g.fill(vals,vel,vecs,wel); g.set_flags_weights(f1,a1,f2,a2,True); return g.ir_interpolate_at(Q)
            relayout(c,"flags and weights",srt,fl,w1,fl,w2)

# ---------------------------------------------------------------- malformed arguments raise, nothing crashes
def oddarray(c):
    k=c.draw(10)
    if k==0: return np.zeros([c.i(0,4) for _ in range(c.i(0,4))])
    if k==1: return np.full((c.i(1,3),c.i(1,5)),c.pick([np.nan,np.inf,1e300,-1e300,1e-320]))
    if k==2: return np.array(c.pick([0,1.5,-3]))
    if k==3: return c.pick([None,"x",{},object(),[[1,2,3],[4,5]],b"abc",range(3),[None]*3])
    if k==4: return np.array(["a","b","c"])
    if k==5: return numbers(c,(c.i(1,4),3),True)
    if k==6: return np.zeros((c.i(0,2),3))[::-1]
    if k==7: return np.broadcast_to(np.float64(c.i(-2,2)),(c.i(0,4),3))
    if k==8: return np.array([True,False,True])
    return numbers(c,tuple(c.i(1,4) for _ in range(c.i(1,4))),False)
@prop("malformed",1600,60000)
def malformed(c):
    import warnings; warnings.simplefilter("ignore"); c.nontrivial()
    k=crystal(c); h,l,a,W=k; sym=brille.Symmetry(h); what=c.draw(8)
    def attempt(name,f,bad=None):
        try: r=f()
        except Exception as e: c.label(name+" raises"); return None
        c.label(name+" accepted")
        if bad: c.check(not bad,name+" accepted",str(bad))
        return r
    x=oddarray(c); y=oddarray(c); c.note("x",repr(x)[:200]); c.note("y",repr(y)[:200])
    def shape(z):
        try: return np.shape(z)
        except Exception: return None
    def size(z):
        try: return int(np.size(z))
        except Exception: return -1
    if what==0:
        attempt("Lattice",lambda: _brille.Lattice(x,y,sym),size(x)!=3 or size(y)!=3); attempt("Lattice",lambda: _brille.Lattice(x,sym),size(x)!=9); attempt("Lattice",lambda: brille.Lattice((x,y),symmetry=sym)); attempt("Lattice",lambda: brille.Lattice(x,spacegroup="P 1"))
        attempt("unknown keyword",lambda: brille.Lattice((l,a),spacegroup="P 1",unknown=1),True); attempt("symmetry and spacegroup",lambda: brille.Lattice((l,a),spacegroup="P 1",symmetry=sym),True); attempt("basis alone",lambda: brille.Lattice((l,a),basis=([[0,0,0]],[0])),True)
    elif what==1:
        attempt("Basis",lambda: brille.Basis(x,[0]*(len(x) if shape(x) else 1)),shape(x) is None or len(shape(x))<2 or int(np.prod(shape(x)[1:]))!=3); bb=attempt("Basis",lambda: brille.Basis(np.zeros((3,3)),[7]),False); c.check(bb is not None and list(bb.types)==[0,1,2],"types of another length are not used"); attempt("Symmetry",lambda: brille.Symmetry(x,y))
        attempt("Symmetry",lambda: brille.Symmetry(np.zeros((2,3,3),int),np.zeros((3,3))),True); attempt("Symmetry",lambda: brille.Symmetry(c.pick(["","x,y","a,b,c","x,y,z;","1/0,y,z","x,y,z,x","-x,-y,-"])))
    elif what==2:
        z=numbers(c,(c.i(0,5),3),False)
        attempt("Polyhedron",lambda: brille.Polyhedron(x)); attempt("Polyhedron",lambda: brille.Polyhedron(z)); attempt("Polyhedron faces",lambda: brille.Polyhedron(z,[[c.i(-1,6) for _ in range(c.i(0,4))] for _ in range(c.i(0,5))]))
    elif what==3:
        bz=zone(c,k); bad=shape(x) is None or len(shape(x))!=2 or shape(x)[1]!=3
        for n in ("isinside","moveinto","ir_moveinto","ir_moveinto_wedge"):
            if x is not None and shape(x) is not None and np.asarray(x).dtype.kind in "fiub" and np.size(x) and not (np.abs(np.asarray(x,dtype=float))<1e6).all(): continue # results for such points are not defined
            attempt(n,lambda: getattr(bz,n)(x),bad)
        attempt("BrillouinZone",lambda: brille.BrillouinZone(x),True); attempt("BrillouinZone keyword",lambda: brille.BrillouinZone(lattice(c,k),unknown=1),True)
    elif what==4:
        bz=zone(c,k); g=grid(c,bz,types="dd"); n=len(g.rlu); good=numbers(c,(n,2,3),False); e=[0,3,0]; sc=numbers(c,(n,2),False)
        badel=c.pick([[-1,0,0],[0,-3,0],[0,2,0],[0,0,8],[1,3],[1,3,0,9],[1,3,0,0,7],[1,3,0,-1],[],[5,0,0],[[1,0,0]],[0,0,0,0,0,0,0,0,0,0]])
        shp=shape(x); bad=shp is None or len(shp)==0 or shp[0]!=n
        if isinstance(x,np.ndarray) and x.dtype.kind in "c": bad=bad
        attempt("fill",lambda: g.fill(x,[1],good,e),bad); attempt("fill elements",lambda: g.fill(sc,[1],good,badel)); attempt("fill count",lambda: g.fill(sc[:-1],[1],good,e),True); attempt("fill count",lambda: g.fill(sc,[1],good[1:],e),True); attempt("fill weights",lambda: g.fill(sc,[1],c.pick([[],[1],[[1,2,3]],[1,2,3,4]]),good,e,[1,1,1]))
        before=(g.values.copy(),g.vectors.copy()); attempt("fill count",lambda: g.fill(sc*2,[1],good[1:],e),True); c.check(same((g.values.copy(),g.vectors.copy()),before),"refused data changed the grid")
        attempt("set_flags_weights",lambda: g.set_flags_weights(c.pick([[],[9],[0,9],[0],[[0]]]),[1,1,1],[0,3,0,9],c.pick([[1],[]])))
    elif what==5:
        bz=zone(c,k); g=grid(c,bz,types="dd"); n=len(g.rlu); filled=c.b()
        if filled: g.fill(numbers(c,(n,2),False),[1],numbers(c,(n,2,3),False),[0,3])
        bad=shape(x) is None or len(shape(x))!=2 or shape(x)[1]!=3 or not filled
        if shape(x) is not None and np.asarray(x).dtype.kind in "f" and np.size(x) and not (np.abs(np.asarray(x,dtype=float))<1e6).all(): c.discard()
        attempt("ir_interpolate_at",lambda: g.ir_interpolate_at(x),bad)
        if hasattr(g,"interpolate_at"):
            attempt("interpolate_at",lambda: g.interpolate_at(x),bad); nb=shape(x) is None or len(shape(x))!=2 or shape(x)[1]!=3 or shape(x)[0]<1; attempt("node_containing",lambda: g.node_containing(x),nb); attempt("node_containing_type",lambda: g.node_containing_type(x),nb); attempt("node_at",lambda: g.node_at([c.i(0,50),c.i(0,50),c.i(0,50)])); attempt("node_at_type",lambda: g.node_at_type([c.i(0,50),c.i(0,50),c.i(0,50)])); at=[1,1,1]; at[c.draw(3)]=c.pick([100000,2**32-1,2**31]); attempt("node_at",lambda: g.node_at(at),True); attempt("node_at_type",lambda: g.node_at_type(at),True)
        attempt("sort",lambda: g.sort()); attempt("bytes_per_point",lambda: g.bytes_per_point)
    elif what==6:
        attempt("create_bz",lambda: create_bz(x,y,"P 1")); attempt("create_bz",lambda: create_bz(x,"P 1")); attempt("create_bz",lambda: create_bz(l,a),True); attempt("create_bz",lambda: create_bz(),True)
        attempt("create_bz",lambda: create_bz(l,a,c.pick(["nonsense","P 9 9 9",""," "])))
    else:
        bz=zone(c,k); v=bz.ir_polyhedron.volume*0.5
        for kw in (dict(mesh=True,nest=True),dict(nest=True),dict(nest=True,node_volume_fraction=v),dict(mesh=True,max_volume=v),dict(max_volume=v),dict(max_size=v),dict(number_density=100),dict(mesh=True,number_density=100),dict(nest=True,max_volume=v,number_density=100),dict(always_triangulate=True,mesh=True)):
            attempt("create_grid "+",".join(kw),lambda: create_grid(bz,**kw),True)
        attempt("create_grid",lambda: create_grid(x),True)

# ---------------------------------------------------------------- points, moved
@prop("moves",2500,60000)
def moves(c):
    k=crystal(c); bz=zone(c,k); Q=qpoints(c,c.i(1,20)); th=c.i(0,4); n=len(Q); B=2*np.pi*np.linalg.inv(np.array(bz.lattice.real_vectors)); c.nontrivial()
    q,tau=bz.moveinto(Q,th); c.check(q.shape==(n,3) and tau.shape==(n,3) and q.dtype==np.float64 and tau.dtype.kind=="i","moveinto shape"); c.check(close(q+tau,Q,1e-12),"moveinto sum"); c.check(all(bz.isinside(q)),"moveinto outside")
    zn=np.array(bz.normals_invA); zp=np.array(bz.points_invA); gap=np.einsum("fk,nfk->nf",zn,(Q@np.array(bz.lattice.vectors(LU.inverse_angstrom)).T)[:,None,:]-zp[None]).max(axis=1); ins=gap<-1e-6; ext=gap>1e-6
    inside=np.array(bz.isinside(Q)); c.check(inside[ins].all() and not inside[ext].any(),"isinside"); c.check(not tau[ins].any(),"moves what is inside")
    q,tau,R,iR=bz.ir_moveinto(Q,th); c.check(q.shape==(n,3) and tau.shape==(n,3) and R.shape==(n,3,3) and iR.shape==(n,3,3) and R.dtype.kind=="i" and tau.dtype.kind=="i","ir_moveinto shape")
    c.check(close(np.einsum("nji,nj->ni",R,q)+tau,Q,1e-11),"ir_moveinto relation"); c.check((np.einsum("nij,njk->nik",R,iR)==np.eye(3,dtype=int)).all(),"ir_moveinto inverse")
    nrm=np.array(bz.ir_normals_invA); pts=np.array(bz.ir_points_invA); xyz=q@np.array(bz.lattice.vectors(LU.inverse_angstrom)).T
    sz=np.abs(pts).max(); c.check((np.einsum("fk,nfk->nf",nrm,xyz[:,None,:]-pts[None])<=1e-8*(1+sz)).all(),"ir_moveinto outside")
    q,R=bz.ir_moveinto_wedge(Q,th); c.check(q.shape==(n,3) and R.shape==(n,3,3),"wedge shape"); c.check(close(np.einsum("nji,nj->ni",R,q),Q,1e-11),"wedge relation")

# ---------------------------------------------------------------- accessors
@prop("accessors",1600,60000)
def accessors(c):
    k=crystal(c); h,l,a,W=k; c.nontrivial(); how=c.draw(3); sym=brille.Symmetry(h); V=basis_vectors(l,a)
    if how==0: x=_brille.Lattice(l,a if c.b() else np.radians(a),sym,snap_to_symmetry=False)
    elif how==1: x=_brille.Lattice(V,sym,snap_to_symmetry=False,row_vectors=True)
    else: x=_brille.Lattice(V.T.copy(),sym,snap_to_symmetry=False,row_vectors=False)
    if c.p(25): # given by its reciprocal lattice
        S=2*np.pi*np.linalg.inv(V).T; ls=np.linalg.norm(S,axis=1)
        sa=np.degrees([np.arccos(S[1]@S[2]/ls[1]/ls[2]),np.arccos(S[0]@S[2]/ls[0]/ls[2]),np.arccos(S[0]@S[1]/ls[0]/ls[1])])
        x=_brille.Lattice(ls,sa,sym,snap_to_symmetry=False,real_space=False); c.label("reciprocal")
    A=np.array(x.real_vectors); D=np.array(x.reciprocal_vectors)
    G=V@V.T; c.check(close(A.T@A,G,1e-9),"metric from vectors",str(A.T@A)); c.check(close(np.array(x.get_covariant_metric_tensor()),G,1e-9),"covariant metric"); c.check(close(np.array(x.get_contravariant_metric_tensor()),np.linalg.inv(G),1e-9),"contravariant metric")
    c.check(close(D.T@A,2*np.pi*np.eye(3),1e-9) or close(D@A,2*np.pi*np.eye(3),1e-9),"dual vectors")
    Gs=4*np.pi**2*np.linalg.inv(G); ls=np.sqrt(np.diag(Gs)); c.check(close([x.a,x.b,x.c],l,1e-10),"a b c"); c.check(close([x.alpha,x.beta,x.gamma],np.radians(a),1e-9),"alpha beta gamma"); c.check(close([x.a_star,x.b_star,x.c_star],ls,1e-9),"a* b* c*")
    c.check(close([x.alpha_star,x.beta_star,x.gamma_star],[np.arccos(Gs[1,2]/ls[1]/ls[2]),np.arccos(Gs[0,2]/ls[0]/ls[2]),np.arccos(Gs[0,1]/ls[0]/ls[1])],1e-8),"alpha* beta* gamma*")
    c.check(abs(abs(x.volume)-np.sqrt(np.linalg.det(G)))<=1e-9*abs(x.volume),"volume"); c.check(abs(abs(x.volume*x.volume_star)-8*np.pi**3)<1e-7,"volume*")
    c.check(close(np.array(x.vectors(LU.angstrom)),A,0) and close(np.array(x.vectors(LU.inverse_angstrom)),D,0),"vectors"); i=c.draw(3); c.check(close(np.array(x.metric(LU.angstrom)),G,1e-9) and close(np.array(x.metric(LU.inverse_angstrom)),Gs,1e-9),"metric")
    c.check(close(np.array(x.vector(LU.angstrom,i)),A[:,i],1e-12),"vector"); c.check(abs(np.linalg.norm(np.array(x.vector(LU.inverse_angstrom,i)))-ls[i])<1e-9*ls[i],"vector")
    # symmetry
    Wi=np.array(sym.W); w=np.array(sym.w); c.check(Wi.shape==(len(sym),3,3) and w.shape==(len(sym),3) and len(sym)==sym.size,"symmetry shapes"); c.check(brille.Symmetry(Wi,w)==sym and x.spacegroup==sym,"symmetry round trip")
    txt=";".join(",".join("".join(("+" if v>0 else "-")+"xyz"[j] for j,v in enumerate(r) if v)+f"+{t:.12f}" for r,t in zip(m,tt)) for m,tt in zip(Wi,w)) if c.p(30) else None
    ps=x.pointgroup; P=np.array(ps.W); un={tuple(m.ravel()) for m in Wi}; c.check(P.shape==(ps.size,3,3) and {tuple(m.ravel()) for m in P}==un and len(P)==len(un),"point group"); c.check(np.array(ps.order).shape==(ps.size,) and np.array(ps.isometry).shape==(ps.size,) and np.array(ps.axis).shape==(ps.size,3),"point group shapes")
    for m,o,s,ax in zip(P,ps.order,ps.isometry,np.array(ps.axis)):
        d=round(np.linalg.det(m)); c.check(abs(s)==o and (s>0)==(d>0),"isometry"); t=round(np.trace(m)*d); c.check(abs(s) in {3:(1,2),2:(6,),1:(4,),0:(3,),-1:(2,)}[t] if d>0 or t not in (3,-1) else True,"isometry"); c.check(abs(s)<=2 and t==3 or np.array_equal(d*m@ax,ax),"axis")
    pt=brille.PrimitiveTransform(h); Pm=np.array(pt.P); iP=np.array(pt.invP); c.check(close(Pm@iP,np.eye(3),1e-12) and close(np.array(pt.Pt),Pm.T,1e-14) and np.array_equal(np.array(pt.invPt),iP.T),"primitive transform"); c.check(pt.does_anything!=pt.is_primitive and pt.is_primitive==bool(np.array_equal(iP,np.eye(3,dtype=int))),"primitive transform flags")
    n=c.i(1,5); pos=numbers(c,(n,3),False); t=[c.i(0,3) for _ in range(n)]; b=brille.Basis(pos,t); c.check(b.size==n and len(b.types)==n and np.array(b.positions).shape==(n,3),"basis")
    sg=brille.Spacegroup(h); c.check(sg.hall_number==h,"spacegroup number"); y=_brille.Lattice(l,a,sg.hall_symbol,snap_to_symmetry=False); c.check(y.spacegroup==sym,"lattice by Hall symbol"); c.check(y==_brille.Lattice(l,a,sym,snap_to_symmetry=False),"lattice equality")
    if c.p(40):
        bz=zone(c,k); Bm=np.array(bz.lattice.vectors(LU.inverse_angstrom))
        for nme in ("normals","points","vertices","half_edge_points","ir_normals","ir_points","ir_vertices","wedge_normals"):
            r=np.array(getattr(bz,nme)); xi=np.array(getattr(bz,nme+"_invA")); c.check(r.ndim==2 and r.shape[1]==3 and r.shape==xi.shape and close(r@Bm.T,xi,1e-10),"zone "+nme)
        for pre in ("","ir_"):
            vpf=getattr(bz,pre+"vertices_per_face"); fpv=getattr(bz,pre+"faces_per_vertex"); v=np.array(getattr(bz,pre+"vertices_invA")); nf=len(getattr(bz,pre+"normals"))
            c.check(len(vpf)==nf and len(fpv)==len(v),"zone faces"); c.check(all(sorted(f for f in range(nf) if i in vpf[f])==sorted(fpv[i]) for i in range(len(v))),"faces per vertex")
            po=bz.ir_polyhedron if pre else bz.polyhedron; pc=po.to_Cartesian() if hasattr(po,"to_Cartesian") else po; c.check(close(np.array(pc.vertices),v,1e-12),"polyhedron vertices"); c.check(sorted(map(sorted,pc.faces))==sorted(map(sorted,vpf)),"polyhedron faces")
        g=grid(c,bz); c.check(close(np.array(g.rlu)@Bm.T,np.array(g.invA),1e-10),"grid rlu invA"); tt=np.array(g.tetrahedra); N=len(g.all_rlu) if hasattr(g,"all_rlu") else len(g.rlu)
        c.check(tt.ndim==2 and tt.shape[1]==4 and tt.min()>=0 and tt.max()<N if tt.size else True,"grid tetrahedra"); c.check(g.BrillouinZone.lattice==bz.lattice,"grid zone")
        if hasattr(g,"inner_rlu"): 
            rows=[tuple(x) for x in np.array(g.invA)]; at={x:i for i,x in enumerate(rows)}; seen=set()
            for part in (g.inner_invA,g.outer_invA):
                ii=[at.get(tuple(x),-1) for x in np.array(part)]; c.check(-1 not in ii and sorted(ii)==ii,"inner and outer points are grid points, in order"); seen|=set(ii)
            c.check(len(seen)==len(rows),"inner and outer points cover the grid"); c.check(len(g.inner_rlu)==len(g.inner_invA) and len(g.outer_rlu)==len(g.outer_invA),"inner and outer rlu")

# ---------------------------------------------------------------- filling
@prop("fill",800,60000)
def fill(c):
    k=crystal(c); bz=zone(c,k); types=c.pick(TYPES); g=grid(c,bz,types=types); n=len(g.rlu); modes=c.i(1,3); S=c.i(0,2); N3=c.i(0,2); M=c.i(0,1); c.nontrivial()
    if S+N3+M==0: S=1
    per=S+3*N3+9*M; cx=types[0]=="c"; shape=(n,modes,per)
    if modes==1 and c.b(): shape=(n,per)
    if shape==(n,1) and c.b(): shape=(n,)
    vals=numbers(c,shape,cx); vecs=numbers(c,(n,modes,3),types[1]=="c"); rl=c.draw(2); lu=c.pick([3,4]) if rl==0 else 3
    el=[S,3*N3,9*M,rl,lu]; wel=[0,3,0]
    if c.p(30) and rl==0 and lu==3: el=el[:c.i(3,5)]
    keep=vals.copy(); c.note("values",(shape,el)); c.check(np.array(g.values).size==0 and np.array(g.vectors).size==0,"an unfilled grid holds something")
    if c.b(): g.fill(vals,el,vecs,wel); c.label("without costs")
    else: g.fill(vals,el+[0,0][:c.i(0,2)] if len(el)==5 else el,[1,1,1],vecs,wel,[1,1,1]); c.label("with costs")
    c.check(np.array_equal(vals,keep),"fill changes its input"); sv=np.array(g.values); c.check(sv.size==vals.size and np.array_equal(sv.reshape(-1),vals.reshape(-1)),"values"); c.check(np.array_equal(np.array(g.vectors).reshape(-1),vecs.reshape(-1)),"vectors")
    Q=qpoints(c,c.i(1,6)); r,w=g.ir_interpolate_at(Q); exp=(len(Q),)+(tuple(shape[1:]) if len(shape)>1 else (1,))
    c.check(r.shape==exp or (len(shape)<=2 and r.reshape(len(Q),-1).shape[1]==vals.size//n),"shape of the answer",f"{r.shape} for {shape}"); c.check(w.shape==(len(Q),modes,3),"shape of the vectors",str(w.shape)); c.check(r.dtype==(np.complex128 if cx else np.float64) and w.dtype==(np.complex128 if types[1]=="c" else np.float64),"type of the answer")
    for par,th in ((True,-1),(True,c.i(1,5)),(False,3)):
        r2,w2=g.ir_interpolate_at(Q,par,th); c.check(same((r2,w2),(r,w)),"threads")
    if len(el)==5 and c.p(50):
        # the flags can be given later
        g.fill(vals,[S,3*N3,9*M]+c.pick([[0,3],[1,3],[0,4],[]]),vecs,wel); g.set_flags_weights([rl,lu,0,0],[1,1,1],[0,3],[1,1,1]); r3,w3=g.ir_interpolate_at(Q); c.check(same(r3.reshape(r.shape) if r3.size==r.size else r3,r) and same(w3,w),"set_flags_weights",lambda: f"{r3} is not {r}"); c.label("flags set later")
    # scalars at grid points (which stay where they are) are the stored ones
    X=np.array(g.rlu); at,_=g.ir_interpolate_at(X,do_not_move_points=True); flat=at.reshape(n,-1,per if len(shape)!=1 else 1); ref=vals.reshape(n,-1,per if len(shape)!=1 else 1)
    c.check(close(flat,ref,1e-7),"the stored values are not found at the grid points",lambda: str(np.abs(flat-ref).max()))
    # the reported operation is applied: answer at Q from the answer at q_ir
    q,tau,R,iR=bz.ir_moveinto(Q); base,_=g.ir_interpolate_at(q,do_not_move_points=True); b=base.reshape(len(Q),-1,per); got=r.reshape(len(Q),-1,per)
    A=np.array(bz.lattice.real_vectors)
    for i in range(len(Q)):
        wr=iR[i].astype(float) # acting on real-space components
        d=np.linalg.det(wr); T=wr*(d if rl==1 else 1); ok=True
        if lu==4: T=np.linalg.inv(wr).T*(d if rl==1 else 1)
        out=b[i].astype(complex).copy()
        for m in range(out.shape[0]):
            for v in range(N3): out[m,S+3*v:S+3*v+3]=T@out[m,S+3*v:S+3*v+3]
            for v in range(M):
                s0=S+3*N3+9*v; t=out[m,s0:s0+9].reshape(3,3); out[m,s0:s0+9]=(T@t@np.linalg.inv(T)).reshape(9) if False else (T@t@np.linalg.inv(T)).reshape(9)
        sc=S+3*N3
        if got.shape[1:]==out.shape: c.check(close(got[i][:,:sc],out[:,:sc],1e-7),"rotation of the answer",lambda: f"{got[i]} is not {out} for {R[i].tolist()}")

# ---------------------------------------------------------------- lifetimes
def churn():
    gc.collect(); x=[np.full((k%37+1,3),9.25) for k in range(200)]; del x; gc.collect()
@prop("lifetime",400,40000)
def lifetime(c):
    k=crystal(c); bz=zone(c,k); g=grid(c,bz,types="dc"); n=len(g.rlu); c.nontrivial()
    held=[bz.vertices,bz.ir_points_invA,bz.polyhedron,bz.lattice,bz.ir_polyhedron.vertices,g.rlu,g.invA,g.BrillouinZone]
    def snap(): return [np.array(held[0]),np.array(held[1]),held[2].volume,np.array(held[3].real_vectors),np.array(held[4]),np.array(held[5]),np.array(held[6]),np.array(held[7].ir_vertices)]
    s0=snap()
    Q=qpoints(c); vals=numbers(c,(n,2),False); vecs=numbers(c,(n,2,3),True)
    how=c.draw(4)
    def temp(x): return [x.copy(),np.asfortranarray(x),x[::-1].copy()[::-1],np.repeat(x,2,axis=0)[::2]][how]
    g.fill(temp(vals),[1],temp(vecs),[0,3]); churn()
    a=g.ir_interpolate_at(Q); a0=(a[0].copy(),a[1].copy()); churn(); b=g.ir_interpolate_at(temp(Q)); c.check(same(b,a0),"data of deleted arrays")
    v=g.values; w=g.vectors; c.check(np.array_equal(np.array(v).ravel(),vals.ravel()),"values")
    res=bz.moveinto(temp(Q)); r0=(res[0].copy(),res[1].copy())
    order=c.draw(3)
    if order==0: del bz; churn(); c.check(same(g.ir_interpolate_at(Q),a0),"grid without its zone")
    if order==1: g.fill(numbers(c,(n,1),False),[1],numbers(c,(n,1,3),True),[0,3]); c.check(np.array_equal(np.array(v).ravel(),vals.ravel()) and np.array_equal(np.array(w).ravel(),vecs.ravel()),"values change on a second fill")
    del g
    if order!=0: del bz
    churn(); c.check(same(snap(),s0),"results change when their owner is gone"); c.check(same(a,a0) and same(res,r0),"answers change when their owner is gone"); c.check(np.array_equal(np.array(v).ravel(),vals.ravel()),"values change when the grid is gone")

# ---------------------------------------------------------------- helper functions
def zsame(x,y):
    return x.lattice==y.lattice and same(np.array(x.vertices),np.array(y.vertices)) and same(np.array(x.ir_vertices),np.array(y.ir_vertices)) and same(np.array(x.wedge_normals),np.array(y.wedge_normals)) and x.ir_vertices_per_face==y.ir_vertices_per_face
def sets(g): return sorted(tuple(sorted(map(int,t))) for t in g.tetrahedra)
@prop("helpers",1500,40000)
def helpers(c):
    k=crystal(c); h,l,a,W=k; sg=brille.Spacegroup(h); name=sg.hall_symbol; c.nontrivial()
    o=dict(use_primitive=c.b(),search_length=c.i(1,2),time_reversal_symmetry=c.b(),wedge_search=c.b()); snap=c.b(); rec=c.p(30); c.note("options",(o,snap,rec))
    l,a=[float(x) for x in l],[float(x) for x in a]
    if c.p(20): a=[float(x) for x in np.radians(a)]
    V=basis_vectors(np.array(l),np.degrees(a) if max(a)<np.pi else np.array(a)); how=c.pick(["scalars","lists","arrays","column","keyword scalars","keyword lists","vectors","keyword vectors","mixed","square lists"]); c.label(how)
    kw=dict(o)
    if snap is False or c.b(): kw["snap_to_symmetry"]=snap
    else: snap=True
    if rec: kw["is_reciprocal"]=True
    for n,dflt in (("use_primitive",True),("search_length",1),("time_reversal_symmetry",False),("wedge_search",True)):
        if kw[n]==dflt and c.b(): del kw[n]
    vec="vectors" in how
    def direct():
        x=_brille.Lattice(V,name,snap_to_symmetry=snap,real_space=not rec) if vec else _brille.Lattice(l,a,name,snap_to_symmetry=snap,real_space=not rec)
        return brille.BrillouinZone(x,**o)
    def helped():
        if how=="scalars": return create_bz(*l,*a,name,**kw)
        if how=="lists": return create_bz(l,a,name,**kw)
        if how=="arrays": return create_bz(np.array(l),np.array(a),spacegroup=name,**kw)
        if how=="column": return create_bz(np.array(l)[:,None],np.array(a)[:,None],name,**kw) if c.b() else create_bz(np.array(l)[None],np.array(a)[None],name,**kw)
        if how=="keyword scalars": return create_bz(a=l[0],b=l[1],c=l[2],alpha=a[0],beta=a[1],gamma=a[2],spacegroup=name,**kw)
        if how=="keyword lists": return create_bz(lens=l,angs=a,spacegroup=name,**kw)
        if how=="mixed": return create_bz(name,lens=tuple(l),angs=np.array(a),**kw)
        if how=="square lists": return create_bz(tuple(l),tuple(a),spacegroup=name,**kw)
        if how=="vectors": return create_bz(V if c.b() else V.tolist(),name,**kw)
        return create_bz(lattice_vectors=V,spacegroup=name,**kw) if c.b() else create_bz(name,lattice_vectors=V.tolist(),**kw)
    def run(f):
        try: return f(),None
        except Exception as e: return None,e
    x,e1=run(direct); y,e2=run(helped)
    c.check((e1 is None)==(e2 is None),"create_bz fails" if e2 else "create_bz succeeds",f"direct: {e1}; helper: {e2}")
    if e1 is not None: c.label("refused"); return
    c.check(zsame(x,y),"create_bz",lambda: f"{x.lattice} and {y.lattice}")
    # grids
    cv,cw=c.b(),c.b(); kind=c.pick(["Trellis","Mesh","Nest","Nest density"]); kind="Trellis" if kind=="Mesh" and crowded(y) else kind; v=y.ir_polyhedron.volume*c.real(0.2,0.7); c.label(kind); t=("c" if cv else "d")+("c" if cw else "d"); t="cc" if cv else t
    gk=dict(complex_values=cv,complex_vectors=cw)
    if c.b(): gk={n:b for n,b in gk.items() if b}
    if kind=="Trellis":
        at=c.b(); g=create_grid(y,node_volume_fraction=v,always_triangulate=at,**gk) if at or c.b() else create_grid(y,node_volume_fraction=v,**gk); ref=getattr(_brille,"BZTrellisQ"+t)(y,v,at)
    elif kind=="Mesh":
        lev,mp=c.i(1,3),c.pick([-1,0,5]); m=dict(max_size=v,num_levels=lev,max_points=mp)
        for n,dd in (("num_levels",3),("max_points",-1)):
            if m[n]==dd and c.b(): del m[n]
        g=create_grid(y,mesh=True,**m,**gk); ref=getattr(_brille,"BZMeshQ"+t)(y,v,lev,mp)
    elif kind=="Nest":
        mb=c.i(1,5); m=dict(max_volume=v,max_branchings=mb)
        if mb==5 and c.b(): del m["max_branchings"]
        g=create_grid(y,nest=True,**m,**gk); ref=getattr(_brille,"BZNestQ"+t)(y,v,mb)
    else:
        nd=c.i(1,60); g=create_grid(y,nest=True,number_density=nd,**gk); ref=getattr(_brille,"BZNestQ"+t)(y,nd,5)
    c.check(type(g) is type(ref),"create_grid type",f"{type(g)} for complex values {cv}, complex vectors {cw}"); c.check(same(np.array(g.rlu),np.array(ref.rlu)) and sets(g)==sets(ref),"create_grid")
    # the lattice helper
    bas=([[0.,0,0],[.5,.5,.5]],[0,1]) if c.b() else None; sym=brille.Symmetry(h)
    def lat(**q): return brille.Lattice((V,) if vec and c.b() else V if vec else (l,a),snap_to_symmetry=False,basis=bas,**q)
    p=lat(symmetry=sym if c.b() else (np.array(sym.W),np.array(sym.w))); q=lat(spacegroup=name if c.b() else (name,)); c.check(p==q,"Lattice",f"{p} and {q}")
    if bas: c.check(p.basis.size==2 and close(np.array(p.basis.positions),np.array(bas[0]),1e-12) and list(p.basis.types)==[0,1],"Lattice basis")

# ---------------------------------------------------------------- files
@prop("files",1200,30000)
def files(c):
    k=crystal(c); bz=zone(c,k); g=grid(c,bz,kind=c.pick(["Trellis","Mesh"])); n=len(g.rlu); t=type(g).__name__[-2:]; c.nontrivial()
    full=not c.p(15)
    if full: g.fill(numbers(c,(n,2),t[0]=="c"),[1],numbers(c,(n,2,3),t[1]=="c"),[0,3])
    entry=c.pick([None,"one","one/two"]); kw={} if entry is None else dict(entry=entry); f="/tmp/y01-not-written.h5"
    def st(x,**q): return x.to_file(filename=f,**kw,**q)
    c.check(st(g) is True,"to_file"); h=type(g).from_file(filename=f,**kw); Q=qpoints(c)
    c.check(same(np.array(g.rlu),np.array(h.rlu)) and same(np.array(g.values),np.array(h.values)) and same(np.array(g.vectors),np.array(h.vectors)),"grid read back")
    if full: c.check(same(g.ir_interpolate_at(Q),h.ir_interpolate_at(Q)),"answers read back")
    # the default flags write an existing file, 'x' and 'c' refuse to
    c.check(st(g) is True,"to_file again")
    for fl in ("x","r"):
        try: st(g,flags=fl); ok=False
        except Exception: ok=True
        c.check(ok,"flags "+fl)
    c.check(st(bz,flags="t") is True,"truncate"); z=brille.BrillouinZone.from_file(filename=f,**kw); c.check(zsame(z,bz),"zone read back")
    if entry is None: # the grid was in the file which has been replaced
        try: type(g).from_file(filename=f); ok=False
        except Exception: ok=True
        c.check(ok,"truncate keeps the other entry")
    try: brille.BrillouinZone.from_file(filename="/tmp/y01-missing.h5"); ok=False
    except Exception: ok=True
    c.check(ok,"missing file")

if __name__=="__main__": sys.exit(main())
