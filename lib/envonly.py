"""The environment shared by the library and the rest of the program (nothing of the library is imported here)"""
import os, sys, gc, math, random, decimal, signal, logging, warnings, threading, builtins, locale, time
import numpy as np, scipy.special, matplotlib, matplotlib.pyplot as plt
FIX={m:[(k,id(v)) for k,v in vars(m).items() if callable(v) and not k.startswith('__')] for m in (builtins,math,np,np.linalg,scipy.special)}
SIG=[s for s in (signal.SIGINT,signal.SIGTERM,signal.SIGALRM,signal.SIGUSR1,signal.SIGFPE,signal.SIGCHLD,signal.SIGPIPE) ]
def umask(): m=os.umask(0); os.umask(m); return m
def tree(d): return tuple(sorted((os.path.relpath(os.path.join(a,f),d),os.path.getsize(os.path.join(a,f))) for a,_,fs in os.walk(d) for f in fs))
def env(figs=True):
    """ everything the calls share with the rest of the program """
    o={}
    o['numpy errors']=(tuple(sorted(np.geterr().items())),id(np.geterrcall()),np.getbufsize()); o['numpy printing']=repr(np.get_printoptions()); o['scipy errors']=repr(scipy.special.geterr())
    s=np.random.get_state(); o['numpy random']=(s[0],s[1].tobytes(),s[2:]); o['random']=hash(random.getstate())
    o['warnings']=(repr(warnings.filters),id(warnings.showwarning),id(warnings.formatwarning)); o['decimal']=repr(decimal.getcontext()) ; o['locale']=repr(locale.setlocale(locale.LC_ALL,None))
    o['working directory']=os.getcwd(); o['files']=tree('.'); o['variables']=dict(os.environ); o['umask']=umask(); o['nice']=os.nice(0)
    o['matplotlib']=dict((k,repr(v)) for k,v in dict.items(matplotlib.rcParams)); o['interactive']=matplotlib.is_interactive(); o['colormaps']=tuple(sorted(plt.colormaps()))
    if figs: o['figures']=(tuple(plt.get_fignums()),plt._pylab_helpers.Gcf.get_active().num if plt.get_fignums() else None,id(plt.gca()) if plt.get_fignums() else None)
    o['streams']=(id(sys.stdout),id(sys.stderr),id(sys.stdin),sys.stdout.closed,sys.stderr.closed); o['interpreter']=(sys.getrecursionlimit(),sys.getswitchinterval(),id(sys.excepthook),id(sys.displayhook),tuple(sys.path),tuple(sys.argv),gc.isenabled(),gc.get_threshold(),sys.dont_write_bytecode,id(threading.excepthook),sys.flags.optimize)
    o['signals']=tuple(repr(signal.getsignal(s)) for s in SIG)+(signal.getitimer(signal.ITIMER_REAL),); o['threads']=threading.active_count(); o['logging']=(logging.root.level,len(logging.root.handlers),logging.root.manager.disable)
    o['open files']=len(os.listdir('/proc/self/fd')); o['time zone']=time.tzname
    for m,v in FIX.items(): o['functions of '+m.__name__]=[k for k,i in v if id(getattr(m,k,None))!=i]
    return o
def settings(kind):
    """ the program chooses its settings """
    np.seterr(**(dict(divide='warn',over='ignore',under='warn',invalid='warn') if kind=='other' else dict(all='raise') if kind=='strict' else dict(divide='warn',over='warn',under='ignore',invalid='warn')))
    np.seterrcall(None); np.setbufsize(8192 if kind!='other' else 16384)
    np.set_printoptions(**(dict(precision=3,suppress=True,linewidth=60) if kind=='other' else dict(precision=8,suppress=False,linewidth=75)))
    k={'default':1,'other':77,'strict':5}[kind]; np.random.seed(k); random.seed(k); np.random.rand(3)
    warnings.resetwarnings(); warnings.simplefilter('error' if kind=='strict' else 'ignore')
    if kind=='other': warnings.filterwarnings('default',message='zzz',category=UserWarning)
    matplotlib.rcdefaults(); matplotlib.rcParams['backend']='Agg'
    if kind!='default': matplotlib.rcParams.update({'contour.negative_linestyle':'dashdot','image.cmap':'plasma','font.size':11.,'axes.grid':True,'figure.figsize':(3.,2.),'text.usetex':False})
    plt.ion() if kind=='other' else plt.ioff()
    os.environ['PROGRAM_SETTING']=kind; decimal.getcontext().prec=28 if kind!='other' else 11; sys.setrecursionlimit(1000 if kind!='other' else 1777); logging.root.setLevel(30 if kind!='other' else 35)
    random.seed(k); np.random.seed(k); os.umask(0o22 if kind!='other' else 0o27); gc.enable(); scipy.special.seterr(all='ignore') if kind!='other' else scipy.special.seterr(loss='warn')
