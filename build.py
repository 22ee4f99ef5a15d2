#!/usr/bin/env python3
"""Builds simulator + one harness against /repo's current tree. Output: <out>/<harness>"""
import os, subprocess, sys, concurrent.futures as cf, hashlib
V=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get("SIM_REPO","/repo")
INST=["-fsanitize=thread","--param","tsan-instrument-func-entry-exit=0"]
BASE=["g++","-std=c++17","-O2","-g1","-fno-omit-frame-pointer","-fno-pie","-w"]
INC=["-I"+REPO+"/include","-isystem","/usr/include/eigen3"]
HARNESS={
 "h_kdtree":dict(src=["h_kdtree.cpp"],omp=True),
 "h_down":dict(src=["h_down.cpp"],omp=True),
 "h_sort":dict(src=["h_sort.cpp"],omp=True),
 "h_norm":dict(src=["h_norm.cpp"],omp=True),
 "h_voxelmap":dict(src=["h_voxelmap.cpp"],omp=True),
 "h_reg":dict(src=["h_reg.cpp","@REPO/src/small_gicp/registration/registration_helper.cpp"],omp=True),
 "h_threads":dict(src=["h_threads.cpp","@REPO/src/small_gicp/registration/registration_helper.cpp"],omp=True),
 "h_conc":dict(src=["h_conc.cpp","@REPO/src/small_gicp/registration/registration_helper.cpp"],omp=True,flags=["-isystem","/usr/include/pcl-1.14"],libs=["-lpcl_search","-lpcl_kdtree","-lpcl_common","-llz4"]),
 "h_oom":dict(src=["h_oom.cpp","@REPO/src/small_gicp/registration/registration_helper.cpp"],omp=True),
 "h_pcl":dict(src=["h_pcl.cpp"],omp=True,flags=["-isystem","/usr/include/pcl-1.14"],libs=["-lpcl_search","-lpcl_kdtree","-lpcl_common","-llz4"]),
 "h_py":dict(src=["h_py.cpp"]+["@REPO/src/python/%s.cpp"%f for f in "python pointcloud kdtree voxelmap preprocess result align factors misc".split()]+["@REPO/src/small_gicp/registration/registration_helper.cpp"],omp=True,flags=["-isystem","/usr/include/python3.12","-fvisibility=hidden"],libs=["-lpython3.12"]),
 "h_odom":dict(src=["@REPO/src/small_gicp/benchmark/benchmark_odom.cpp"]+["@REPO/src/benchmark/odometry_benchmark_small_%s.cpp"%f for f in "gicp gicp_omp vgicp_omp gicp_tbb vgicp_tbb gicp_model_tbb gicp_model_omp vgicp_model_tbb vgicp_model_omp gicp_tbb_flow gicp_pcl".split()]+["h_odom.cpp"],omp=True,flags=["-DBUILD_WITH_TBB","-DBUILD_WITH_PCL","-isystem","/usr/include/pcl-1.14"],libs=["-lpcl_search","-lpcl_kdtree","-lpcl_common","-llz4","-lfmt"]),
 "h_selftest":dict(src=["h_selftest.cpp"],omp=True),
 "h_io":dict(src=["h_io.cpp"]),
 "h_data":dict(src=["@REPO/src/small_gicp/benchmark/benchmark_odom.cpp"]+["@REPO/src/benchmark/odometry_benchmark_small_%s.cpp"%f for f in "gicp gicp_omp gicp_tbb gicp_tbb_flow".split()]+["h_data.cpp"],omp=True,flags=["-DBUILD_WITH_TBB"],libs=["-lfmt"]),
 "h_red":dict(src=["h_red.cpp"],omp=True),
 "h_types":dict(src=["h_types.cpp"],omp=True,flags=["-isystem","/usr/include/pcl-1.14"],libs=["-lpcl_common"]),
}
def sh(cmd):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: sys.stderr.write(" ".join(cmd)+"\n"+r.stdout[-6000:]+"\n"); raise SystemExit(3)
REDEF=[x for s in("memcpy","memmove","memset") for x in("--redefine-sym","%s=simw_%s"%(s,s))]
def comp(src,obj,flags,inst):
    sh(BASE+flags+(INST if inst else [])+["-c",src,"-o",obj])
    if inst: sh(["objcopy"]+REDEF+[obj])
def build(name,out):
    os.makedirs(out,exist_ok=True); h=HARNESS[name]; jobs=[]; objs=[]
    for s in("simrt","simomp","simtbb","simio"):
        o=os.path.join(out,s+".o"); objs.append(o)
        if not os.path.exists(V+"/sim/%s.cpp"%s): objs.pop(); continue
        jobs.append((V+"/sim/%s.cpp"%s,o,["-O2"],False))
    o=os.path.join(out,"oracle.o"); objs.append(o); jobs.append((V+"/harness/oracle.cpp",o,["-O2"],False))
    for i,s in enumerate(h["src"]):
        p=s.replace("@REPO",REPO) if s.startswith("@REPO") else V+"/harness/"+s
        o=os.path.join(out,"%s_%d_%s.o"%(name,i,os.path.basename(p))); objs.append(o)
        jobs.append((p,o,INC+(["-fopenmp"] if h.get("omp") else [])+h.get("flags",[]),True))
    for i,s in enumerate(h.get("plain",[])):
        p=V+"/harness/"+s; o=os.path.join(out,"%s_p%d_%s.o"%(name,i,os.path.basename(p))); objs.append(o); jobs.append((p,o,INC+h.get("flags",[]),False))
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda j:comp(*j),jobs))
    exe=os.path.join(out,name)
    sh(["g++","-no-pie","-rdynamic","-o",exe]+objs+h.get("libs",[])+["-lpthread","-ldl"])
    return exe
if __name__=="__main__": print(build(sys.argv[1],sys.argv[2]))
