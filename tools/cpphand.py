"""Behaviour-preserving edits of the C++ sources: each must compile and leave every function EQUAL (or undecided)."""
import sys,threading,shutil,os,tempfile,re,subprocess
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
sys.setrecursionlimit(100000); threading.stack_size(512*1024*1024)
from vg.repo import Repo
from vg.equiv import Validator
SP="Eigen::SparseMatrix<double,0,long long int>"
def al(*p): return ("all",)+p
E=[
("noop-comment","hazard.cpp",[("end","\n// a comment\n")]),
("noop-void","hazard.cpp",[("    double gamma_p = 0.0;","    (void)0;\n    double gamma_p = 0.0;",1)]),
("noop-semi","llk.cpp",[("    double llk = 0.0;","    ;\n    double llk = 0.0;"),("double tp;","double tp;\n int unused_ = 0; (void)unused_;")]),
("noop-dowhile","llk.cpp",[("    double llk = 0.0;","    do {} while (0);\n    double llk = 0.0;"),("double tp;","double tp;\n static_cast<void>(0);"),("double b2;","double b2;\n if (false) { llk = 1; }")]),
("noop-maybe","mcmc.cpp",[("int s = 1;","[[maybe_unused]] const int _noop = 0;\n int s = 1;")]),
("noop-asm","decode.cpp",[("namespace py = pybind11;","namespace py = pybind11;\nstatic const int kUnused = 3;\n")]),
("while","llk.cpp",[("    for (size_t t = 0; t < n_T; t++)\n    {\n        for (size_t d = 0; d < (D-1); d++)","    for (size_t t = 0; t != n_T; ++t)\n    {\n        for (size_t d = 0; d + 1 < D; d += 1)")]),
("rename","llk.cpp",[al(r"\btpg\b","grad_sum"),al(r"\bb_grad_c\b","bg"),al(r"\btci\b","col")]),
("lambda","llk.cpp",[("    double llk = 0.0;","    auto dur = [&](size_t d_, size_t j_, size_t t_) { return tvdtpi ? ds(d_, j_, t_) : ds(d_, j_); };\n    double llk = 0.0;"),
   ("lam(t,d,j) = pi(j)*bs(t,0,j)*((tvdtpi) ? ds(d,j,t): ds(d,j));","lam(t,d,j) = pi(j)*bs(t,0,j)*dur(d,j,t);"),("lam(t,d,j) = pi(j)*bs(t,j)*((tvdtpi) ? ds(d,j,t): ds(d,j));","lam(t,d,j) = pi(j)*bs(t,j)*dur(d,j,t);")]),
("hoist","llk.cpp",[("            for (size_t j = 0; j < n_S; j++)\n            {\n                // Skip","            for (size_t j = 0; j < n_S; j++)\n            {\n                const bool bump = hmp_code != 0 && j % 2 == 1;\n                // Skip"),("if (hmp_code != 0 && j % 2 == 1 && d >= event_width)","if (bump && d >= event_width)")]),
("alias","eigen_solvers.cpp",[("typedef Eigen::Vector<long long int, Eigen::Dynamic> VectorXi64;","typedef Eigen::Vector<long long int, Eigen::Dynamic> VectorXi64;\nusing SpMat = "+SP+";"),al(r"\(Eigen::SparseMatrix<double,0,long long int>::StorageIndex\*\)","(SpMat::StorageIndex*)"),al(r"Eigen::Map<Eigen::SparseMatrix<double,0,long long int>> A\(","Eigen::Map<SpMat> A(")]),
("mapfn","eigen_solvers.cpp",[("typedef Eigen::Vector<long long int, Eigen::Dynamic> VectorXi64;","""typedef Eigen::Vector<long long int, Eigen::Dynamic> VectorXi64;
static Eigen::Map<Eigen::SparseMatrix<double,0,long long int>> as_sparse(long long int rows, long long int cols, long long int nnz,
    py::array_t<double, py::array::f_style | py::array::forcecast> &data, py::array_t<long long int, py::array::f_style | py::array::forcecast> &idptr,
    py::array_t<long long int, py::array::f_style | py::array::forcecast> &indices){
    return Eigen::Map<Eigen::SparseMatrix<double,0,long long int>>(rows,cols,nnz,
        (Eigen::SparseMatrix<double,0,long long int>::StorageIndex*) idptr.data(),
        (Eigen::SparseMatrix<double,0,long long int>::StorageIndex*) indices.data(),
        (Eigen::SparseMatrix<double,0,long long int>::Scalar*) data.data());
}
"""),al(r"Eigen::Map<Eigen::SparseMatrix<double,0,long long int>> A\(Arows,Acols,Annz,\s*\(Eigen::SparseMatrix<double,0,long long int>::StorageIndex\*\) Aidptr.data\(\),\s*\(Eigen::SparseMatrix<double,0,long long int>::StorageIndex\*\) Aindices.data\(\),\s*\(Eigen::SparseMatrix<double,0,long long int>::Scalar\*\) Adata.data\(\)\);","auto A = as_sparse(Arows,Acols,Annz,Adata,Aidptr,Aindices);")]),
("invertif","eigen_solvers.cpp",[("""    if (solver.info()!=Eigen::Success)
    {
        Eigen::SparseMatrix<double,0,long long int> id(Arows,Acols);
        id.setIdentity();
        return std::make_tuple(std::move(id),1);
    }

    Eigen::SparseMatrix<double,0,long long int> L = solver.matrixL();
    
    return std::make_tuple(std::move(L),0);""","""    if (solver.info() == Eigen::Success)
    {
        Eigen::SparseMatrix<double,0,long long int> L = solver.matrixL();
        return std::make_tuple(std::move(L),0);
    }
    Eigen::SparseMatrix<double,0,long long int> id(Arows,Acols);
    id.setIdentity();
    return std::make_tuple(std::move(id),1);""")]),
("failed","eigen_solvers.cpp",[("    if (solver.info()!=Eigen::Success)\n    {\n        Eigen::SparseMatrix<double,0,long long int> id(Arows,Acols);","    const bool failed = solver.info() != Eigen::Success;\n    if (failed)\n    {\n        Eigen::SparseMatrix<double,0,long long int> id(Arows,Acols);"),
   ("    Eigen::SparseMatrix<double,0,long long int> L = solver.matrixL();\n    \n    return std::make_tuple(std::move(L),0);","    return std::make_tuple("+SP+"(solver.matrixL()),0);")]),
("dchol-helper","dchol.cpp",[("Eigen::MatrixXd dChol(","""static double cross(const Eigen::MatrixXd &dC, const Eigen::Ref<Eigen::MatrixXd,0,Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>> &R, size_t i, size_t j)
{
    double s = 0.0;
    auto k = Eigen::seq(0,i-1);
    s = ((dC(k,i).array()*R(k,j).array()) + (R(k,i).array()*dC(k,j).array())).sum();
    return s;
}

Eigen::MatrixXd dChol("""),("""                                auto k = Eigen::seq(0,i-1);
                                Bij -= ((dC(k,i).array()*R(k,j).array()) + (R(k,i).array()*dC(k,j).array())).sum();""","""                                Bij -= cross(dC,R,i,j);""")]),
("dchol-else","dchol.cpp",[("else if (j > i)","else"),("Bij -= ","Bij = Bij - ")]),
("dchol-decl","dchol.cpp",[("                            Bij = A(i,j);","                            double Bij = A(i,j);"),("double Rii, dRii, Bij;","double Rii, dRii;")]),
("v2-split","dchol.cpp",[("Vcc(j,m) = Vcc(m,j) = Vjm;","Vcc(m,j) = Vjm;\n Vcc(j,m) = Vjm;"),("py::handle dRdRho_lh = dRdRhos[l];\n                                py::array_t<double> dRdRho_l = py::cast<py::array>(dRdRho_lh);","py::array_t<double> dRdRho_l = py::cast<py::array>(dRdRhos[l]);")]),
("v2-name","dchol.cpp",[al(r"\bVjm\b","acc"),al(r"\bptr_l\b","pl"),al(r"\bmk\b","Mk"),al(r"\bml\b","Ml")]),
("haz-move","hazard.cpp",[al(r"\bgamma_p\b","gam"),al(r"\bri_jh\b","h")]),
("energy","mcmc.cpp",[("    Eigen::MatrixXd energy = 0.5 * r.transpose() * Minv * r;\n    return energy(0,0);","    const Eigen::MatrixXd e = 0.5 * r.transpose() * Minv * r;\n    double out = e(0,0);\n    return out;")]),
("leap","mcmc.cpp",[("    rprime = r + 0.5 * epsilon * grad;","    const double half = 0.5 * epsilon;\n    rprime = r + half * grad;"),("rprime += 0.5 * epsilon * gradprime;","rprime = rprime + half * gradprime;")]),
("leap2","mcmc.cpp",[("    Eigen::MatrixXd stateprime;\n    Eigen::MatrixXd gradprime;\n    Eigen::MatrixXd rprime;\n    \n    // First","    // First"),("    rprime = r + 0.5 * epsilon * grad;\n    stateprime = state","    Eigen::MatrixXd rprime = r + 0.5 * epsilon * grad;\n    Eigen::MatrixXd stateprime = state"),("    gradprime = grad_fun(stateprime);","    Eigen::MatrixXd gradprime = grad_fun(stateprime);")]),
("div-if","mcmc.cpp",[("    s *= (int(Db(0,0) > 0) * int(De(0,0) > 0));","    if (!(Db(0,0) > 0 && De(0,0) > 0))\n    {\n        s = 0;\n    }")]),
("div-helper","mcmc.cpp",[("int check_dynamic_divergence(","static int both_positive(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b)\n{\n    return int(a(0,0) > 0) * int(b(0,0) > 0);\n}\n\nint check_dynamic_divergence("),al(r"s \*= \(int\(Db\(0,0\) > 0\) \* int\(De\(0,0\) > 0\)\);","s *= both_positive(Db,De);")]),
("bt-noelse","mcmc.cpp",[("aprime = lp > 0.0 ? 1.0 : exp(lp);","if (lp > 0.0)\n        {\n            aprime = 1.0;\n        }\n        else\n        {\n            aprime = std::exp(lp);\n        }")]),
("bt-min","mcmc.cpp",[al(r"\brnd_eng\b","engine_t"),al(r"\bgen\b","rng_")]),
("bt-and","mcmc.cpp",[("(nprime + nprime2 > 0) &\n","(nprime + nprime2 > 0) &&\n")]) if 0 else ("bt-order","mcmc.cpp",[("            aprime += aprime2;\n            naprime += naprime2;","            naprime += naprime2;\n            aprime += aprime2;")]),
("term-split","davies.cpp",[al(r"\bcount\b","n_calls")]),
("resid-rename","resid.cpp",[al(r"\blam_a\b","lam_arr"),al(r"\btp\b","trans")]),
("viterbi-rename","decode.cpp",[al(r"\btmp_j\b","state_"),al(r"\btmp_ed\b","dur_")]),
("structured","mcmc.cpp",[("        Eigen::MatrixXd grad = grad_fun(state);\n        Eigen::MatrixXd gradprime;\n        Eigen::MatrixXd rprime;\n        \n        std::tie(stateprime,gradprime,rprime,Lprime) = leap_frog(","        Eigen::MatrixXd grad = grad_fun(state);\n        auto [sp, gradprime, rprime, Lp] = leap_frog("),("        double Hprime = Lprime -","        stateprime = sp;\n        Lprime = Lp;\n        double Hprime = Lprime -")]),
("haz-helper","hazard.cpp",[("double llk2(","static double weighted(double d, double g)\n{\n    return d * log(g);\n}\n\ndouble llk2("),("allk -= dj * log(gamma_p)","allk -= weighted(dj,gamma_p)")]),
("vit-if","decode.cpp",[al(r"ends_with_last == false","!ends_with_last")]),
("llk-if","llk.cpp",[al(r"ends_with_last == false","!ends_with_last"),al(r"ends_in_last == false","!ends_in_last")]),
("resid-if","resid.cpp",[al(r"== false\b","!= true")]),
("resid-const","resid.cpp",[al(r"\(D-1\)","(D - static_cast<size_t>(1))")]),
("pre","llk.cpp",[al(r"\bj\+\+","++j"),al(r"\bd\+\+","++d"),al(r"tci\+\+","tci += 1")]),
]
INC=["-I/opt/venv/lib/python3.12/site-packages/pybind11/include","-I/usr/include/eigen3"]+["-I"+x for x in subprocess.run(["/opt/venv/bin/python","-c","import sysconfig;print(sysconfig.get_paths()['include'])"],capture_output=True,text=True).stdout.split()]
def edit(s,ops):
    for o in ops:
        if o[0]=="all":
            s2=re.sub(o[1],lambda m:o[2],s)
            assert s2!=s,o
            s=s2
        elif o[0]=="end": s+=o[1]
        else:
            n=o[2] if len(o)>2 else 0; i=-1
            for _ in range(n+1): i=s.index(o[0],i+1)
            s=s[:i]+o[1]+s[i+len(o[0]):]
    return s
def main():
    only=[x for x in sys.argv[1:] if not x.startswith("-")]; comp="-c" in sys.argv
    ref=Repo('/repo/src/mssm')
    for nm,f,ops in E:
        if only and nm not in only: continue
        W=tempfile.mkdtemp(); shutil.rmtree(W); shutil.copytree('/repo/src/mssm',W)
        p=[os.path.join(d,f) for d,_,fs in os.walk(W) if f in fs][0]
        s=open(p).read()
        try: s=edit(s,ops)
        except (ValueError,AssertionError) as e: print("BADEDIT",nm,e); shutil.rmtree(W); continue
        open(p,'w').write(s)
        if comp:
            r=subprocess.run(["g++","-std=c++17","-fsyntax-only","-w"]+INC+[p],capture_output=True,text=True)
            if r.returncode: print("NOCOMPILE",nm,r.stderr[:500])
        cur=Repo(W)
        V=Validator(cur,ref,budget_s=40)
        out=[]
        for q in sorted(ref.funcs):
            if q.startswith("cpp_") and os.path.basename(ref.owner[q][0].path)==f:
                r=V.check(q)
                if r.verdict!="EQUAL": out.append((r.verdict,q,r.why if hasattr(r,'why') else '',getattr(r,'lines','')))
        bad=any(o[0]=="DIFF" for o in out)
        print("DIFF" if bad else "ok",nm,out,cur.cpp_failed or "",flush=True)
        shutil.rmtree(W)
t=threading.Thread(target=main); t.start(); t.join()
