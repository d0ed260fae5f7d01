# Planted bugs: see plant.py. Every edit changes lines of the original repository.
C = 'hyperstatic/core/'
BUGS = []


def B(id, property, edits, needs, breaks, demo, first=False):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, first=first))


CANT = '''
def cantilever(d=(1, 0, 0), E=2e11, A=1e-2, I2=2e-5, I3=8e-5, J=1e-5, work='w'):
    a = Api(os.path.join(WORK, work))
    a.add_node('A', 0, 0, 0); a.add_node('B', *d)
    a.add_simple_beam('M', 'A', 'B', E, 0.3, A, I2, I3, J, 7850)
    a.set_nodal_restraint('A', True, True, True, True, True, True)
    a.add_loadpattern('P'); a.add_static_case('C')
    return a
'''

B('B01_support_order', 'P03',
  [(C + 'fe_model/assembly.py', "        for i in reversed(sorted(indices)):\n            row[row>i]-=1\n            col[col>i]-=1      \n",
    "        for i in reversed(indices):\n            row[row>i]-=1\n            col[col>i]-=1      \n")],
  'supports given for a node with a larger index before one with a smaller index',
  'the stiffness is compacted to the wrong free displacements when supports are not defined in node order',
  '''
def tip(order):
    a = Api(os.path.join(WORK, order))
    for i, n in enumerate('ABC'):
        a.add_node(n, float(i), 0, 0)
    a.add_simple_beam('1', 'A', 'B', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
    a.add_simple_beam('2', 'B', 'C', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
    for n in order:
        a.set_nodal_restraint(n, True, True, True, n == 'A', n == 'A', False)
    a.add_loadpattern('P'); a.set_nodal_load('P', 'B', f2=1e4, f3=2e3); a.add_static_case('L'); a.add_case_pattern('L', 'P', 1.)
    if not (a.assemble() and a.solve_static('L')):
        return None
    return a.result_get_nodal_displacement('B', 'L')
x, y = tip('AC'), tip('CA')
return x is not None and y is not None and np.allclose(x, y, rtol=1e-6, atol=1e-12)
''')

B('B02_factor_accumulates', 'P02',
  [(C + 'fe_model/load/__init__.py', "        self.__load_factor[pattern.name]=factor\n        if curve is None:",
    "        self.__load_factor[pattern.name]=self.__load_factor.get(pattern.name,0)+factor\n        if curve is None:")],
  'the same pattern added twice to one case',
  'adding a pattern again adds the factors instead of using the latest one',
  CANT + '''
a = cantilever(); a.set_nodal_load('P', 'B', f3=1e3)
a.add_case_pattern('C', 'P', 1.); a.add_case_pattern('C', 'P', 2.)
a.assemble(); a.solve_static('C')
return abs(a.result_get_nodal_displacement('B', 'C')[2] / (2e3 / 3 / 2e11 / 8e-5) - 1) < 1e-6
''')

B('B03_load_kinds_exclusive', 'P04',
  [(C + 'fe_model/load/pattern.py', "        if name in self.__beam_concentrated.keys():\n            v=self.__beam_concentrated[name]\n            #TODO",
    "        elif name in self.__beam_concentrated.keys():\n            v=self.__beam_concentrated[name]\n            #TODO")],
  'a distributed and a point load on the same member in the same pattern',
  'the point load is dropped when the member also carries a distributed load',
  CANT + '''
a = cantilever()
a.set_beam_load_distributed('P', 'M', qi2=-1e3, qj2=-1e3); a.set_beam_load_concentrated('P', 'M', F2=-5e3, r=.25)
a.add_case_pattern('C', 'P', 1.); a.assemble(); a.solve_static('C')
return abs(a.result_get_nodal_reaction('A', 'C')[2] - 6e3) < 1e-3
''')

B('B04_vertical_tolerance', 'P05',
  [(C + 'fe_model/element/line/__init__.py', "        if np.max(np.abs((start.loc-end.loc)[:2])) < tol:",
    "        if np.max(np.abs((start.loc-end.loc)[:2])) < 1e-3*np.linalg.norm(start.loc-end.loc)+tol:")],
  'a member that is almost, but not exactly, vertical, or a model turned by a small angle so that the deviation leaves the X direction',
  'local axes of nearly vertical members jump to those of vertical ones',
  CANT + '''
e = 5e-4
a = cantilever(d=(0, e, 1.)); a.set_nodal_load('P', 'B', f1=1e3); a.add_case_pattern('C', 'P', 1.); a.assemble(); a.solve_static('C')
# the member lies in the YZ plane: its axis 2 is in that plane, so bending in X is about axis 2
return abs(a.result_get_nodal_displacement('B', 'C')[0] / (1e3 / 3 / 2e11 / 2e-5) - 1) < 1e-3
''')

B('B05_end_indices_sorted', 'P06',
  [(C + 'fe_model/model.py', "        beam=self.__beams[name]\n        nodes=beam.get_node_names()\n        return [self.get_node_hid(name) for name in nodes]",
    "        beam=self.__beams[name]\n        nodes=beam.get_node_names()\n        return sorted(self.get_node_hid(name) for name in nodes)")],
  'a member whose start node was created after its end node',
  'both ends of such a member are exchanged in assembly and results',
  '''
def tip(order):
    a = Api(os.path.join(WORK, order))
    pos = {'A': (0, 0, 0), 'B': (1, 1, 0), 'C': (2, 0, 1)}
    for n in order:
        a.add_node(n, *pos[n])
    a.add_simple_beam('1', 'A', 'B', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
    a.add_simple_beam('2', 'B', 'C', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
    a.set_nodal_restraint('A', True, True, True, True, True, True)
    a.add_loadpattern('P'); a.set_beam_load_distributed('P', '2', qi2=1e3); a.add_static_case('L'); a.add_case_pattern('L', 'P', 1.)
    a.assemble(); a.solve_static('L')
    return a.result_get_nodal_displacement('C', 'L')
return np.allclose(tip('ABC'), tip('CBA'), rtol=1e-6, atol=1e-12)
''')

B('B06_releases_accumulate', 'P07',
  [(C + 'fe_model/element/line/simple_beam.py', "        self.__releases=np.array(rls)\n",
    "        self.__releases=np.logical_or(self.__releases,rls)\n")],
  'releases set twice on the same member, the second set not containing the first',
  'an earlier release stays in force after the releases are set again',
  CANT + '''
a = cantilever(); a.set_nodal_load('P', 'B', f3=1e3); a.add_case_pattern('C', 'P', 1.)
a.set_nodal_restraint('B', True, True, False, True, True, True)
a.set_beam_release('M', r3i=True); a.set_beam_release('M', r3j=True)
a.assemble(); a.solve_static('C')
return abs(a.result_get_nodal_displacement('B', 'C')[2] / (1e3 / 3 / 2e11 / 8e-5) - 1) < 1e-6
''')

B('B07_box_not_redefined', 'P08',
  [(C + 'fe_model/model.py', "        sec=BoxSection(name,mat,h,b,tw,tf)\n        self.__beam_section[name]=sec",
    "        sec=BoxSection(name,mat,h,b,tw,tf)\n        sec=self.__beam_section.setdefault(name,sec)")],
  'a box section defined again under a name in use, before the member that uses it',
  'the first definition stays in force',
  '''
a = Api(os.path.join(WORK, 'w'))
a.add_node('A', 0, 0, 0); a.add_node('B', 1, 0, 0); a.add_isotropic_material('m', 7850, 2e11, .3, 1e-5)
a.add_beam_section_box('s', 'm', .4, .2, .01, .02); a.add_beam_section_box('s', 'm', .2, .2, .01, .02)
a.add_beam('M', 'A', 'B', 's'); a.set_nodal_restraint('A', True, True, True, True, True, True)
a.add_loadpattern('P'); a.set_nodal_load('P', 'B', f1=1e5); a.add_static_case('C'); a.add_case_pattern('C', 'P', 1.)
a.assemble(); a.solve_static('C')
A = .2 * .2 - .16 * .18
return abs(a.result_get_nodal_displacement('B', 'C')[0] / (1e5 / 2e11 / A) - 1) < 1e-6
''')

B('B08_zero_load_ignored', 'P09',
  [(C + 'fe_model/load/pattern.py', "        self.__nodal_load[name]=np.array([f1,f2,f3,m1,m2,m3])",
    "        f=np.array([f1,f2,f3,m1,m2,m3])\n        if f.any(): #do not store empty loads\n            self.__nodal_load[name]=f")],
  'a nodal load set back to zero after it was non-zero',
  'the earlier load stays',
  CANT + '''
a = cantilever(); a.set_nodal_load('P', 'B', f2=1e3); a.set_nodal_load('P', 'B'); a.add_case_pattern('C', 'P', 1.)
a.assemble(); a.solve_static('C')
return np.abs(a.result_get_nodal_displacement('B', 'C')).max() < 1e-15
''')

B('B09_load_cached', 'P10',
  [(C + '__init__.py', "            with open(os.path.join(workpath,filename+'.sep'),'rb') as f:\n                api=pickle.load(f)\n            return api\n",
    "            path=os.path.join(workpath,filename+'.sep')\n            key=(path,os.path.getsize(path))\n            if key not in Api._loaded: #reading a large model is slow\n                with open(path,'rb') as f:\n                    Api._loaded[key]=f.read()\n            return pickle.loads(Api._loaded[key])\n"),
   (C + '__init__.py', 'class Api(object):\n', 'class Api(object):\n    _loaded={}\n\n')],
  'the same file loaded, saved again with content of the same length and loaded again by one process',
  'the second load returns the earlier model',
  CANT + '''
a = cantilever(); a.save('m'); b = Api.load(os.path.join(WORK, 'w'), 'm')
a.set_nodal_restraint('A', True, True, True, True, True, False); a.save('m')
b = Api.load(os.path.join(WORK, 'w'), 'm')
return list(map(bool, b.get_node_restraints()['A'])) == [True] * 5 + [False]
''')

B('B10_reserve_result', 'P11',
  [(C + 'fe_solver/static.py', "        d_=np.array(d).reshape((1,assembly.node_count*6)) #row-first, d_ contains all the displacements including the restraint DOFs\n\n        path=os.path.join(self.workpath,casename+'.d')\n        np.save(path,d_)\n",
    "        d_=np.array(d).reshape((1,assembly.node_count*6)) #row-first, d_ contains all the displacements including the restraint DOFs\n\n        path=os.path.join(self.workpath,casename+'.d')\n        np.save(path,np.zeros_like(d_)) #reserve the space\n        np.save(path,d_)\n")],
  'an interruption between the two writes of the result file',
  'a displacement query after the interruption answers zero instead of the old or new result or a failure',
  CANT + '''
a = cantilever(); a.set_nodal_load('P', 'B', f2=1e3); a.add_case_pattern('C', 'P', 1.); a.assemble(); a.solve_static('C')
old = a.result_get_nodal_displacement('B', 'C')[1]
import numpy
save, n = numpy.save, [0]
class Crash(BaseException): pass
for stop in range(1, 5):
    n[0] = 0
    def crash(path, *k, **kw):
        n[0] += 1
        save(path, *k, **kw)
        if n[0] == stop: raise Crash()
    numpy.save = crash
    try: a.solve_static('C')
    except Crash: pass
    finally: numpy.save = save
    d = a.result_get_nodal_displacement('B', 'C')
    if d is not None and abs(d[1] - old) > 1e-12: return False
return True
''')

B('B11_stale_stiffness', 'P12',
  [(C + 'fe_solver/static.py', "            path=os.path.join(self.workpath,base_case+'.k') #path of the stiff matrix\n            if os.path.exists(path):\n                K=np.load(path)\n            else:\n                K=assembly.assemble_K()\n                np.save(path,K)\n\n        f=",
    "            path=os.path.join(self.workpath,base_case+'.k.npy') #path of the stiff matrix\n            if os.path.exists(path):\n                K=np.load(path,allow_pickle=True).item()\n            else:\n                K=assembly.assemble_K()\n                np.save(path,K)\n\n        f=")],
  'solve, edit the model, assemble and solve again in the same directory',
  'the stiffness of the first solution is reused after the model was edited and assembled again',
  CANT + '''
a = cantilever(); a.set_nodal_load('P', 'B', f3=1e3); a.add_case_pattern('C', 'P', 1.); a.assemble(); a.solve_static('C')
a.add_simple_beam('M', 'A', 'B', 1e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0); a.assemble(); a.solve_static('C')
return abs(a.result_get_nodal_displacement('B', 'C')[2] / (1e3 / 3 / 1e11 / 8e-5) - 1) < 1e-6
''')

B('B12_slope_shape', 'P13',
  [(C + 'fe_model/element/line/beam.py', "        Nb4=(3*xi**2-2*xi)*self.length", "        Nb4=(3*xi**2-2*xi**2)*self.length")],
  'the slope of a deformed member queried strictly between its ends (0 < xi < 1)',
  'slopes between the ends do not belong to the reported deflection; both ends are right',
  '''
a = Api(os.path.join(WORK, 'w'))
a.add_node('A', 0, 0, 0); a.add_node('B', 2, 0, 0); a.add_isotropic_material('m', 7850, 2e11, .3, 1e-5)
a.add_beam_section_rectangle('s', 'm', .4, .2); a.add_beam('M', 'A', 'B', 's'); a.set_nodal_restraint('A', True, True, True, True, True, True)
a.add_loadpattern('P'); a.set_nodal_load('P', 'B', f2=1e5, f3=1e5); a.add_static_case('C'); a.add_case_pattern('C', 'P', 1.)
a.assemble(); a.solve_static('C')
q = lambda x: a.result_get_beam_deformation('M', x, 'C')
h = 1e-4
for k, s in ((1, 4), (2, 5)):
    num = (q(.5 + h)[k] - q(.5 - h)[k]) / (2 * h * 2)
    if abs(abs(q(.5)[s]) / abs(num) - 1) > 1e-3: return False
return True
''')

B('B13_wide_rectangle', 'P14',
  [(C + 'fe_model/section/beam_section.py', "        A=b*h\n        As2=As3=5/6*h*b\n        s=sum(", "        h,b=max(h,b),min(h,b) #the series below needs h>=b\n        A=b*h\n        As2=As3=5/6*h*b\n        s=sum(")],
  'a rectangle wider than high',
  'the two bending stiffnesses are exchanged',
  '''
a = Api(os.path.join(WORK, 'w'))
a.add_node('A', 0, 0, 0); a.add_node('B', 1, 0, 0); a.add_isotropic_material('m', 7850, 2e11, .3, 1e-5)
a.add_beam_section_rectangle('s', 'm', .2, .4); a.add_beam('M', 'A', 'B', 's'); a.set_nodal_restraint('A', True, True, True, True, True, True)
a.add_loadpattern('P'); a.set_nodal_load('P', 'B', f3=1e5); a.add_static_case('C'); a.add_case_pattern('C', 'P', 1.)
a.assemble(); a.solve_static('C')
return abs(a.result_get_nodal_displacement('B', 'C')[2] / (1e5 / 3 / 2e11 / (.4 * .2 ** 3 / 12)) - 1) < 1e-6
''', first=True)

B('B14_opposite_points', 'P15',
  [('hyperstatic/common/csys.py', "        if  np.abs(np.abs(cos)-1.)<tol:", "        if  np.abs(cos-1.)<tol:")],
  'a frame set from three collinear points with the origin between the other two',
  'the degenerate input is accepted and the axes become undefined',
  '''
from hyperstatic.common.csys import Cartesian
c = Cartesian((0, 0, 0), (1, 0, 0), (0, 1, 0))
try:
    c.set_by_3pts((1, 0, 0), (3, 0, 0), (-1, 0, 0))
except Exception:
    pass
T = c.transform_matrix
return bool(np.allclose(T @ T.T, np.eye(3)))
''')

B('B15_rotational_mass', 'P17',
  [(C + 'fe_model/assembly.py', "            if len(Mn.data)!=0:", "            if np.any(Mn.diagonal()[:3]):")],
  'a node with rotational inertia only',
  'its inertia is lost from the mass matrix',
  '''
from hyperstatic.core.fe_model.model import Model
from hyperstatic.core.fe_model.assembly import Assembly
m = Model(); m.add_node('A', 0, 0, 0); m.add_node('B', 1, 0, 0)
m.add_simple_beam('M', 'A', 'B', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
m.set_nodal_mass('B', 0, 0, 0, 5., 6., 7.); m.set_nodal_mass('A', 1., 0, 0, 2., 3., 4.)
M = Assembly(m, []).assemble_M().toarray()
return bool(np.allclose(M.diagonal(), [1, 0, 0, 2, 3, 4, 0, 0, 0, 5, 6, 7], atol=1e-9))
''')

B('B16_plan_diagonal', 'P01',
  [(C + 'fe_model/element/line/__init__.py', "        if np.max(np.abs((start.loc-end.loc)[:2])) < tol:", "        if np.abs(np.sum((start.loc-end.loc)[:2])) < tol:")],
  'an inclined member whose plan projection runs along x = -y',
  'its local axes are those of a vertical member, exchanging its bending stiffnesses in part',
  CANT + '''
d = np.array([1., -1., 1.]); L = 3 ** .5
a = cantilever(d=d); h = np.array([1., 1., 0]) / 2 ** .5
a.set_nodal_load('P', 'B', *(1e3 * h)); a.add_case_pattern('C', 'P', 1.); a.assemble(); a.solve_static('C')
# a horizontal load square to the member bends it about axis 2
u = a.result_get_nodal_displacement('B', 'C')[:3] @ h
return abs(u / (1e3 * L ** 3 / 3 / 2e11 / 2e-5) - 1) < 1e-6
''')

B('B17_damping', 'P20',
  [(C + 'fe_solver/dynamic.py', "        a1=2*omega_i*omega_j/(omega_j**2-omega_i**2)*(-xi_i/omega_j+xi_j/omega_i)", "        a1=2*omega_i*omega_j/(omega_j**2-omega_i**2)*(-xi_i/omega_i+xi_j/omega_j)")],
  'a time history with a damping ratio, over several steps',
  'the stiffness-proportional damping is negative and adds energy',
  '''
from hyperstatic.core.fe_model.model import Model
from hyperstatic.core.fe_model.assembly import Assembly
from hyperstatic.core.fe_model.load.pattern import LoadPattern
from hyperstatic.core.fe_model.load.loadcase import TimeHistoryCase
from hyperstatic.core.fe_solver.dynamic import TimeHistorySolver
m = Model(); m.add_node('A', 0, 0, 0); m.add_node('B', 1, 0, 0)
m.add_simple_beam('M', 'A', 'B', 4e4, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
m.set_nodal_mass('B', 10., 0, 0, 0, 0, 0)
m.set_nodal_restraint('A', True, True, True, True, True, True); m.set_nodal_restraint('B', False, True, True, True, True, True)
p = LoadPattern('P'); p.set_nodal_load('B', f1=10.)
c = TimeHistoryCase('T'); c.use_direct_time_integration(.05, .1); n = 400
curve = np.vstack([np.arange(n) * .05, np.r_[np.ones(2), np.zeros(n - 2)]]); c.add_pattern(p, 1., curve)
os.mkdir(os.path.join(WORK, 'w')); w = os.path.join(WORK, 'w')
Assembly(m, [c]).save(w, 'x.asb'); TimeHistorySolver(w, 'x.asb').solve('T')
u = np.load(os.path.join(w, 'T.d.npy'))[:, 0]
return np.abs(u[300:]).max() < .3 * np.abs(u[:50]).max()
''')

# ---- second batch
B('B18_small_stiffness_cut', 'P01',
  [(C + 'fe_model/assembly.py', "            Ke_ = (T.T*Ke*T).tocoo()\n            data_k.extend(Ke_.data)\n            row_k.extend([i*6+r if r<6 else j*6+r-6 for r in Ke_.row])",
    "            Ke_ = (T.T*Ke*T).tocoo()\n            data_k.extend(np.where(np.abs(Ke_.data)<1e-6,0,Ke_.data)) #numerical noise\n            row_k.extend([i*6+r if r<6 else j*6+r-6 for r in Ke_.row])")],
  'stiffness coefficients below 1e-6, as in very soft members or large units of force',
  'coefficients below an absolute threshold are taken as noise and dropped from the stiffness',
  CANT + '''
def tip(E, f):
    a = cantilever(d=(3, 0, 0), E=E, work='w%g' % E); a.set_nodal_load('P', 'B', f2=f, m1=f); a.add_case_pattern('C', 'P', 1.)
    return a.result_get_nodal_displacement('B', 'C') if a.assemble() and a.solve_static('C') else None
x, y = tip(2e11, 1e3), tip(2e-1, 1e-9)
return y is not None and np.allclose(x, y, rtol=1e-6, atol=1e-12)
''')

B('B19_zero_factor', 'P02',
  [(C + 'fe_model/load/loadcase.py', "    def add_pattern(self,pattern:LoadPattern,factor:float):\n        super().add_pattern(pattern,factor)\n",
    "    def add_pattern(self,pattern:LoadPattern,factor:float):\n        super().add_pattern(pattern,factor or 1.0)\n")],
  'a pattern added to a static case with factor zero',
  'a zero factor is taken for a missing one and replaced by one',
  CANT + '''
a = cantilever(); a.set_nodal_load('P', 'B', f3=1e3); a.add_loadpattern('Q'); a.set_nodal_load('Q', 'B', f3=5e3)
a.add_case_pattern('C', 'P', 1.); a.add_case_pattern('C', 'Q', 0)
a.assemble(); a.solve_static('C')
return abs(a.result_get_nodal_displacement('B', 'C')[2] / (1e3 / 3 / 2e11 / 8e-5) - 1) < 1e-6
''', first=True)

B('B20_support_removal', 'P03',
  [(C + 'fe_model/model.py', "        self.__nodal_restraints[name]=np.array([u1,u2,u3,r1,r2,r3])\n        return True",
    "        if any([u1,u2,u3,r1,r2,r3]):\n            self.__nodal_restraints[name]=np.array([u1,u2,u3,r1,r2,r3])\n        return True")],
  'a support that is removed again by setting the node free',
  'setting a node free is ignored, the earlier support stays',
  CANT + '''
a = cantilever(); a.set_nodal_restraint('B', u2=True); a.set_nodal_restraint('B')
a.set_nodal_load('P', 'B', f2=1e3); a.add_case_pattern('C', 'P', 1.)
a.assemble(); a.solve_static('C')
return abs(a.result_get_nodal_displacement('B', 'C')[1]) > 1e-9
''')

B('B21_point_load_at_start', 'P04',
  [(C + 'fe_model/load/pattern.py', "            ra=v[6]\n", "            ra=v[6] or 0.5\n")],
  'a point load exactly at the start of a member',
  'position zero is taken for a missing one, the load acts at midspan',
  CANT + '''
a = cantilever(); a.set_beam_load_concentrated('P', 'M', F3=1e3, r=0.0); a.add_case_pattern('C', 'P', 1.)
a.assemble(); a.solve_static('C')
return np.abs(a.result_get_nodal_displacement('B', 'C')).max() < 1e-15
''')

B('B22_downward_member_axes', 'P06',
  [(C + 'fe_model/element/line/__init__.py', "            pt2 = o + np.array([1,0,0])\n", "            pt2 = o + np.array([np.sign((end.loc-start.loc)[2]),0,0])\n")],
  'a vertical member defined from top to bottom, with loads or unequal inertias in its local axes',
  'the local axes of a vertical member flip when its ends are exchanged',
  '''
def top(rev):
    a = Api(os.path.join(WORK, 'w%d' % rev))
    a.add_node('A', 0, 0, 0); a.add_node('B', 0, 0, 3)
    a.add_simple_beam('M', *(['B', 'A'] if rev else ['A', 'B']), 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
    a.set_nodal_restraint('A', True, True, True, True, True, True)
    a.add_loadpattern('P'); a.set_beam_load_distributed('P', 'M', qi2=1e3, qj2=1e3); a.add_static_case('C'); a.add_case_pattern('C', 'P', 1.)
    a.assemble(); a.solve_static('C')
    return a.result_get_nodal_displacement('B', 'C')
return np.allclose(top(0), top(1), rtol=1e-6, atol=1e-15)
''')

B('B23_release_skipped_for_end_loads', 'P07',
  [(C + 'fe_model/assembly.py', "            re=self.__model.get_beam_condensated_f(beam,re)\n            re_=Vt.dot(re)",
    "            if np.any(re[:6]) and np.any(re[6:]): #nothing to redistribute otherwise\n                re=self.__model.get_beam_condensated_f(beam,re)\n            re_=Vt.dot(re)")],
  'a load that acts at one end of a member only, at an end whose rotation is released',
  'the moment at a released end goes into the node instead of the member',
  '''
a = Api(os.path.join(WORK, 'w'))
for i, n in enumerate('ABC'):
    a.add_node(n, 2. * i, 0, 0)
a.add_simple_beam('1', 'A', 'B', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
a.add_simple_beam('2', 'B', 'C', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
a.set_beam_release('2', r3i=True)
for n in 'AC':
    a.set_nodal_restraint(n, True, True, True, True, True, True)
a.set_nodal_restraint('B', True, True, True, True, False, True)
a.add_loadpattern('P'); a.set_beam_load_concentrated('P', '2', M3=1e4, r=0.0); a.add_static_case('C'); a.add_case_pattern('C', 'P', 1.)
a.assemble(); a.solve_static('C')
return abs(a.result_get_nodal_displacement('B', 'C')[4]) < 1e-12
''')

B('B24_dangling_fourth_corner', 'P08',
  [(C + 'fe_model/model.py', "        if node3!=None:\n            node3=self.__nodes[node3]", "        if node3 in self.__nodes:\n            node3=self.__nodes[node3]")],
  'a quadrilateral shell whose fourth corner does not exist',
  'a shell with an unknown fourth node becomes a triangle instead of being refused',
  '''
a = Api(os.path.join(WORK, 'w'))
for n, p in {'A': (0, 0, 0), 'B': (1, 0, 0), 'C': (1, 1, 0)}.items():
    a.add_node(n, *p)
a.add_isotropic_material('S', 7850, 2e11, .3, 1e-5); a.add_shell_section('s', 'S', .1)
return a.add_shell('q', 'A', 'B', 'C', 'D', 's') is False and not a.get_shell_names()
''')

B('B25_zero_factor_forgets_pattern', 'P09',
  [(C + 'fe_model/load/__init__.py', "    def set_pattern_factor(self,name,factor):\n        self.__load_factor[name]=factor\n",
    "    def set_pattern_factor(self,name,factor):\n        self.__load_factor[name]=factor\n        if factor==0: #contributes nothing\n            for d in (self.__pattern,self.__load_factor,self.__load_curve):\n                d.pop(name,None)\n")],
  'the factor of a pattern set to zero and later to another value',
  'a pattern whose factor was zero once cannot be used in the case again',
  '''
from hyperstatic.core.fe_model.load.pattern import LoadPattern
from hyperstatic.core.fe_model.load.loadcase import StaticCase
p = LoadPattern('p'); p.set_nodal_load('A', f3=2.)
c = StaticCase('c'); c.add_pattern(p, 1.)
c.set_pattern_factor('p', 0); c.set_pattern_factor('p', 3.)
try:
    return c.get_nodal_f('A')[2] == 6. and c.get_nodal_f_dict()['A'][2] == 6.
except KeyError:
    return False
''')

B('B26_indices_not_saved', 'P10',
  [(C + 'fe_model/model.py', "        self.__hid:Dict[str,Dict[str,int]]={}\n", "        Model.__hid={} #of the model in use\n")],
  'a saved model loaded by another process, or after another model was created',
  'the indices are kept with the class, so they are not saved with the model',
  CANT + '''
a = cantilever(); a.set_nodal_load('P', 'B', f3=1e3); a.add_case_pattern('C', 'P', 1.); a.save('m')
Api(os.path.join(WORK, 'other'))
b = Api.load(os.path.join(WORK, 'w'), 'm')
return b is not None and b.assemble() and b.solve_static('C') and abs(b.result_get_nodal_displacement('B', 'C')[2] / (1e3 / 3 / 2e11 / 8e-5) - 1) < 1e-6
''')

B('B27_failed_save_reports_success', 'P11',
  [(C + '__init__.py', "            logging.info(\"Error saving to file \"+ filename +'. Exception: '+str(e))\n            return False",
    "            logging.info(\"Error saving to file \"+ filename +'. Exception: '+str(e))\n            return os.path.exists(os.path.join(self.__workpath,filename+'.sep'))")],
  'a save that fails (disk full) over an existing file',
  'a failing save reports success when an older file of that name exists',
  CANT + '''
import resource, signal
a = cantilever(); a.save('m')
for i in range(200):
    a.add_node('n%d' % i, i, 1, 0)
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
old = resource.getrlimit(resource.RLIMIT_FSIZE)
resource.setrlimit(resource.RLIMIT_FSIZE, (2000, old[1]))
r = a.save('m')
resource.setrlimit(resource.RLIMIT_FSIZE, old)
return r is False
''')

B('B28_assembly_reused', 'P12',
  [(C + '__init__.py', "            lc=self.__loadcases.values()\n            asb=Assembly(model,lc)\n            asb.save(workpath,self.__filename)\n",
    "            lc=self.__loadcases.values()\n            key=(model.get_node_names(),model.get_beam_names(),model.get_shell_names(),list(self.__loadcases),list(self.__loadpatterns))\n"
    "            if getattr(self,'assembled',None)!=key: #nothing to do otherwise\n                asb=Assembly(model,lc)\n                asb.save(workpath,self.__filename)\n                self.assembled=key\n")],
  'a load, support, release or section changed between two assemblies without adding anything',
  'assembling again is skipped when no object was added',
  CANT + '''
a = cantilever(); a.set_nodal_load('P', 'B', f3=1e3); a.add_case_pattern('C', 'P', 1.)
a.assemble(); a.solve_static('C'); x = a.result_get_nodal_displacement('B', 'C')
a.set_nodal_load('P', 'B', f3=3e3); a.assemble(); a.solve_static('C')
return np.allclose(a.result_get_nodal_displacement('B', 'C'), 3 * x)
''')

B('B29_end_release_in_end_forces', 'P13',
  [(C + 'fe_model/model.py', "        K=beam.integrate_K()\n        if condensate:\n", "        K=beam.integrate_K()\n        if condensate and np.any(beam.releases[:6]):\n")],
  'a member released at its end, but not at its start',
  'end forces of a member released at its end only are computed with the unreleased stiffness',
  '''
a = Api(os.path.join(WORK, 'w'))
for i, n in enumerate('ABC'):
    a.add_node(n, 2. * i, 0, 0)
a.add_simple_beam('1', 'A', 'B', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
a.add_simple_beam('2', 'B', 'C', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
a.set_beam_release('1', r2j=True)
for n in 'AC':
    a.set_nodal_restraint(n, True, True, True, True, True, True)
a.add_loadpattern('P'); a.set_nodal_load('P', 'B', f2=1e4); a.add_static_case('C'); a.add_case_pattern('C', 'P', 1.)
a.assemble(); a.solve_static('C')
f = a.result_get_beam_end_force('1', 'C')
return abs(f[10]) < 1e-6 and abs(f[4]) > 1
''', first=True)

B('B30_thick_pipe', 'P14',
  [(C + 'fe_model/section/beam_section.py', "        J=3.14159/32*(d**4-(d-2*t)**4)\n        I22=I33=3.14159/64*(d**4-(d-2*t)**4)", "        J=3.14159/4*t*(d-t)**3 #Bredt\n        I22=I33=3.14159/64*(d**4-(d-2*t)**4)")],
  'a pipe with a thick wall',
  'the torsion constant of a pipe is that of a thin wall',
  '''
from hyperstatic.core.fe_model.section.beam_section import PipeSection
s = PipeSection('b', None, 0.4, 0.12)
return abs(s.J / (np.pi / 32 * (.4 ** 4 - .16 ** 4)) - 1) < 1e-4
''')

B('B31_turn_beyond_half', 'P15',
  [('hyperstatic/common/csys.py', "        r=R.from_quat([0,1*np.sin(theta/2),0,np.cos(theta/2)])\n", "        s=np.sin(theta/2)\n        r=R.from_quat([0,s,0,np.sqrt(1-s*s)])\n")],
  'a rotation by more than half a turn',
  'rotations about the global Y axis by more than 180 degrees go the wrong way',
  '''
from hyperstatic.common.csys import Cartesian
a = Cartesian((0, 0, 0), (1, 0, 0), (0, 1, 0)); b = Cartesian((0, 0, 0), (1, 0, 0), (0, 1, 0))
a.rotate_about_external_y(3.6); b.rotate_about_external_y(1.8); b.rotate_about_external_y(1.8)
return np.allclose(a.transform_matrix, b.transform_matrix, atol=1e-9)
''')

B('B32_small_shape_components', 'P16',
  [(C + 'fe_solver/dynamic.py', "        mode_= modes.T # row first\n", "        mode_= np.where(np.abs(modes)<1e-5,0,modes).T # row first, without numerical noise\n")],
  'masses so large that components of the normalised shapes are small numbers',
  'small components of mode shapes are cut off by an absolute threshold',
  CANT + '''
a = cantilever(d=(4, 0, 0)); m = 5e11
a.set_nodal_mass('B', m, m, m, m, m, m); a.add_modal_case('E')
a.assemble(); a.solve_modal('E', 2)
from hyperstatic.core.fe_post.node import NodeResultResolver
r = NodeResultResolver(os.path.join(WORK, 'w'), '.asb')
phi = [r.resolve_nodal_displacement('B', 'E', k) for k in (1, 2)]
return all(abs(m * p @ p - 1) < 1e-6 for p in phi)
''')

B('B33_nodal_mass_adds_up', 'P17',
  [(C + 'fe_model/model.py', "        self.__nodes[name].mass=np.array([u1,u2,u3,r1,r2,r3])", "        self.__nodes[name].mass=self.__nodes[name].mass+np.array([u1,u2,u3,r1,r2,r3])")],
  'a nodal mass set twice',
  'nodal masses add up instead of replacing the earlier one',
  '''
from hyperstatic.core.fe_model.model import Model
m = Model(); m.add_node('A', 0, 0, 0)
m.set_nodal_mass('A', 1., 2., 3., 0, 0, 0); m.set_nodal_mass('A', 5., 5., 5., 0, 0, 0)
return np.allclose(m.get_node_M('A').toarray().diagonal(), [5, 5, 5, 0, 0, 0])
''')

B('B34_axes_cached', 'P18',
  [(C + 'fe_model/element/line/__init__.py', "        T=np.zeros((12,12))\n        V=super(Line,self).local_csys.transform_matrix\n        T[:3,:3]=T[3:6,3:6]=T[6:9,6:9]=T[9:,9:]= V\n        return spr.csr_matrix(T)\n",
    "        if getattr(self,'_axes',None) is None:\n            T=np.zeros((12,12))\n            V=super(Line,self).local_csys.transform_matrix\n            T[:3,:3]=T[3:6,3:6]=T[6:9,6:9]=T[9:,9:]= V\n            self._axes=spr.csr_matrix(T)\n        return self._axes\n")],
  'a member turned about its axis after its matrices were used once',
  'the axes of a member are computed once and a later rotation of the member has no effect',
  '''
from hyperstatic.core.fe_model.model import Model
m = Model(); m.add_node('A', 0, 0, 0); m.add_node('B', 3, 0, 0)
m.add_simple_beam('M', 'A', 'B', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
def k():
    T = m.get_beam_transform_matrix('M'); return (T.T * m.get_beam_K('M') * T).toarray()
k0 = k(); m.set_beam_rotation('M', np.pi / 2); k1 = k()
return abs(k0[1, 1] / k1[2, 2] - 1) < 1e-9 and abs(k0[2, 2] / k1[1, 1] - 1) < 1e-9
''')

B('B35_shell_stiffness_cached', 'P19',
  [(C + 'fe_model/model.py', "        shell=self.__shells[name]\n        return shell.integrate_K()  \n",
    "        shell=self.__shells[name]\n        cache=self.__dict__.setdefault('_shell_K',{}) #of shells of one size\n        key=(shell.get_node_names()[3:]!=[],round(shell.area,9),str(getattr(shell,'_DKGQ__section',getattr(shell,'_DKT__section',None))))\n"
    "        if key not in cache:\n            cache[key]=shell.integrate_K()\n        return cache[key]\n")],
  'two shells of the same section and area, but of different shape or corner order',
  'shells of equal area share the stiffness of the first one',
  '''
from hyperstatic.core.fe_model.model import Model
m = Model()
for n, p in {'A': (0, 0, 0), 'B': (2, 0, 0), 'C': (2, 2, 0), 'D': (0, 2, 0), 'E': (6, 0, 0), 'F': (6, 1, 0), 'G': (2, 1, 0)}.items():
    m.add_node(n, *p)
m.add_isotropic_material('S', 7850, 2e11, .3, 1e-5); m.add_shell_section('s', 'S', .1)
m.add_shell('p', 's', 'A', 'B', 'C', 'D'); m.add_shell('q', 's', 'B', 'E', 'F', 'G')
kp, kq = m.get_shell_K('p').toarray(), m.get_shell_K('q').toarray()
return abs(kp - kq).max() > 1e-3 * abs(kp).max()
''')

B('B36_long_histories_cut', 'P20',
  [(C + 'fe_model/load/__init__.py', "        mi=1e20\n", "        mi=500\n")],
  'a load curve of more than 500 points',
  'time histories stop after 500 steps',
  '''
from hyperstatic.core.fe_model.load.pattern import LoadPattern
from hyperstatic.core.fe_model.load.loadcase import TimeHistoryCase
c = TimeHistoryCase('t'); c.add_pattern(LoadPattern('p'), 1., np.ones((2, 700)))
return tuple(c.get_max_min_step()) == (700, 700)
''')

B('B37_small_loads_dropped', 'P05',
  [(C + 'fe_model/assembly.py', "            for f in fn_.reshape(6):\n                if f!=0:\n", "            for f in fn_.reshape(6):\n                if abs(f)>1e-9:\n")],
  'nodal loads of less than 1e-9, as in large units of force',
  'nodal loads below an absolute threshold are dropped',
  CANT + '''
def tip(u):
    a = cantilever(d=(3, 0, 0), E=2e11 * u, work='w%g' % u); a.set_nodal_load('P', 'B', f2=1e3 * u, f3=1. * u); a.add_case_pattern('C', 'P', 1.)
    a.assemble(); a.solve_static('C')
    return a.result_get_nodal_displacement('B', 'C')
return np.allclose(tip(1.), tip(1e-10), rtol=1e-6, atol=1e-15)
''')

B('B38_decay_exponent', 'P21',
  [('hyperstatic/app/design/GB/seismic/spectrum.py', "        gamma=0.9+(0.05-xi)/(0.3+6*xi)\n", "        gamma=0.9+(0.05-xi)/(0.5+5*xi)\n")],
  'a damping ratio other than 5 %',
  'the exponent of the falling branch follows the withdrawn edition of the code',
  '''
from hyperstatic.app.design.GB.seismic.spectrum import GB50010
s = GB50010(0.16, 0.4, 0.02).spectrum
g = 0.9 + 0.03 / 0.42; e2 = 1 + 0.03 / 0.112
i = list(np.round(s['T'], 2)).index(1.0)
return abs(s['alpha'][i] / ((0.4 / 1.0) ** g * e2 * 0.16) - 1) < 1e-9
''')

B('B39_short_memory', 'P22',
  [('hyperstatic/app/seismic/wave2spec.py', "    q=np.exp(-ζ*ω*t)*np.sin(ω_*t)\n", "    q=np.exp(-ζ*ω*t)*np.sin(ω_*t)\n    q[t>4.]=0. #has died out\n")],
  'a lightly damped oscillator of long period and a record that is longer than four seconds',
  'the response forgets excitation more than four seconds old',
  '''
from hyperstatic.app.seismic.wave2spec import wave2spectrum
dt, n = 0.02, 800
t = np.arange(n) * dt
f = os.path.join(WORK, 'r.txt'); a = np.sin(2 * np.pi * t / 2.0)
open(f, 'w').write('\\n'.join('%.12g' % x for x in a))
T, sa, sv, sd = wave2spectrum(f, dt, 0.01, 50.)
i = list(np.round(T, 2)).index(2.0); w = np.pi
wd = w * np.sqrt(1 - 1e-4); h = np.exp(-.01 * w * t) * np.sin(wd * t) / wd
u = np.convolve(0.5 * a / np.max(np.abs(a)), h)[:n] * dt
return abs(sd[i] / np.max(np.abs(u)) - 1) < 1e-6
''')

B('B40_wrap_around', 'P22',
  [('hyperstatic/app/seismic/wave2spec.py', "    Nfft=nex2pow(n)*16\n    f=fftfreq", "    Nfft=nex2pow(n)\n    f=fftfreq")],
  'a record that shakes until its end, at periods that ring on',
  'the response after the end of a record wraps around to its beginning in the Fourier method',
  '''
from hyperstatic.app.seismic.wave2spec import fft2spec
from scipy.linalg import expm
dt, n, xi = 0.02, 512, 0.03
t = np.arange(n) * dt
a = np.sin(np.pi * t / 0.8) * (t / t[-1]) ** 2
f = os.path.join(WORK, 'r.txt'); open(f, 'w').write('\\n'.join('%.12g' % x for x in a))
T, sa = fft2spec(f, dt, xi, 50.)
i = list(np.round(T, 2)).index(1.6); w = 2 * np.pi / 1.6
g = np.concatenate([0.5 * a / np.max(np.abs(a)), np.zeros(3000)])
E = np.zeros((4, 4)); E[:2, :2] = [[0, 1], [-w * w, -2 * xi * w]]; E[1, 2] = E[2, 3] = 1
P = expm(E * dt); z = np.zeros(2); top = 0
for k in range(len(g) - 1):
    z = P[:2, :2] @ z + P[:2, 2] * g[k] + P[:2, 3] * (g[k + 1] - g[k]) / dt; top = max(top, abs(z[0]))
return abs(sa[i] * 9.8 / w / w / top - 1) < 0.03
''')

B('B41_clearing_forgets_patterns', 'P23',
  [(C + '__init__.py', "                os.mkdir(workpath)\n                return True\n", "                os.mkdir(workpath)\n                self.__loadpatterns={}\n                return True\n")],
  'a load case added, or a load changed, after clearing, with a pattern defined before',
  'clearing the workspace removes the load patterns from the model',
  CANT + '''
a = cantilever(); a.set_nodal_load('P', 'B', f3=1e3)
a.clear_workspace()
a.add_case_pattern('C', 'P', 2.)
return bool(a.assemble() and a.solve_static('C')) and abs(a.result_get_nodal_displacement('B', 'C')[2] / (2e3 / 3 / 2e11 / 8e-5) - 1) < 1e-6
''')

B('B42_short_indices', 'P01',
  [(C + 'fe_model/assembly.py', "        __K=spr.coo_matrix((data_k,(row_k,col_k)),shape=(n_nodes*6, n_nodes*6))\n",
    "        if n_nodes<2**14: #16 bits will do\n            row_k=np.array(row_k,dtype=np.uint32).astype(np.uint16)\n            col_k=np.array(col_k,dtype=np.uint32).astype(np.uint16)\n        __K=spr.coo_matrix((data_k,(row_k,col_k)),shape=(n_nodes*6, n_nodes*6))\n")],
  'a model of 10923 to 16383 nodes',
  'indices of displacements overflow 16 bits in the stiffness',
  '''
import scipy.sparse as sp
from hyperstatic.core.fe_model.model import Model
from hyperstatic.core.fe_model.assembly import Assembly
m = Model(); n = 10990
for i in range(n):
    m.add_node(str(i), float(i), 0, 0)
for i in (0, n // 2, n - 2):
    m.add_simple_beam('B%d' % i, str(i), str(i + 1), 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
K = sp.csr_matrix(Assembly(m, []).assemble_K())
return abs(K[6 * n - 6, 6 * n - 6] - K[6, 6]) < 1e-6 * K[6, 6] and abs(K[0, 0] - K[6, 6]) < 1e-6 * K[6, 6]
''')

B('B43_slow_modes_are_rigid', 'P16',
  [(C + 'fe_solver/dynamic.py', "        omega2s=omega2s.reshape(k)\n", "        omega2s=omega2s.reshape(k)\n        omega2s=np.where(omega2s<1e-4,0,omega2s) #rigid body modes\n")],
  'a structure with periods of more than ten minutes',
  'slow modes are reported with zero frequency',
  CANT + '''
a = cantilever(d=(4, 0, 0)); m = 3e12
a.set_nodal_mass('B', m, m, m, m, m, m); a.add_modal_case('E')
a.assemble(); a.solve_modal('E', 2)
w = np.load(os.path.join(WORK, 'w', 'E.o.npy'))
phi = [v for v in np.load(os.path.join(WORK, 'w', 'E.d.npy'))]
return bool(np.all(w > 0))
''')

B('B44_massless_members_weigh', 'P17',
  [(C + 'fe_model/element/line/simple_beam.py', "            _Me=spr.eye(12).tocsr()*rho*A*l/2\n", "            _Me=spr.eye(12).tocsr()*max(rho*A*l,1e-6)/2 #never singular\n")],
  'members of zero density, with small nodal masses or in large units of mass',
  'members without mass are given some',
  '''
from hyperstatic.core.fe_model.model import Model
m = Model(); m.add_node('A', 0, 0, 0); m.add_node('B', 1, 2, 0)
m.add_simple_beam('M', 'A', 'B', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
return abs(m.get_beam_M('M').toarray()).max() < 1e-9
''')

B('B47_file_name_up_to_dot', 'P10',
  [(C + '__init__.py', "            with open(os.path.join(workpath,filename+'.sep'),'rb') as f:\n", "            if not os.path.exists(os.path.join(workpath,filename+'.sep')):\n                filename=os.path.splitext(filename)[0] #given with its suffix\n            with open(os.path.join(workpath,filename+'.sep'),'rb') as f:\n")],
  'a file name with a dot that was never saved, next to a saved one without',
  'a name never saved loads another model',
  '''
a = Api(os.path.join(WORK, 'w')); a.add_node('A', 0, 0, 0); a.save('tower')
return Api.load(os.path.join(WORK, 'w'), 'tower.v2') is None
''')

B('B48_result_name_up_to_dot', 'P12',
  [(C + 'fe_solver/static.py', "        path=os.path.join(self.workpath,casename+'.d')\n        np.save(path,d_)\n        return True\n   \n    def solve_2nd",
    "        path=os.path.join(self.workpath,casename+'.d')\n        np.save(path,d_)\n        for name in os.listdir(self.workpath): #results of earlier versions of this case\n            if name.startswith(casename+'.') and name!=casename+'.d.npy':\n                os.remove(os.path.join(self.workpath,name))\n        return True\n   \n    def solve_2nd")],
  'a case named like another one up to a dot, solved later',
  'solving a case removes the results of cases whose names begin with its name and a dot',
  CANT + '''
a = cantilever(); a.set_nodal_load('P', 'B', f3=1e3); a.add_static_case('C.1')
for c in ('C', 'C.1'):
    a.add_case_pattern(c, 'P', 1.)
a.assemble(); a.solve_static('C.1'); a.solve_static('C')
d = a.result_get_nodal_displacement('B', 'C.1')
return d is not None and abs(d[2] / (1e3 / 3 / 2e11 / 8e-5) - 1) < 1e-6
''')

B('B49_small_factors', 'P02',
  [(C + 'fe_model/load/__init__.py', "            f=pat.get_beam_f(name,l)\n            if f is None:\n", "            f=pat.get_beam_f(name,l)\n            if f is None or abs(factor)<1e-6:\n")],
  'a factor below 1e-6, as for a change of units',
  'patterns with very small factors are left out for member loads',
  '''
from hyperstatic.core.fe_model.load.pattern import LoadPattern
from hyperstatic.core.fe_model.load.loadcase import StaticCase
p = LoadPattern('P'); p.set_beam_load_dist('M', qi2=1e12, qj2=1e12); c = StaticCase('C'); c.add_pattern(p, 1e-7)
return abs(c.get_beam_f('M', 2.)[1] / 1e5 - 1) < 1e-9
''')

B('B51_rotation_modulo', 'P18',
  [(C + 'fe_model/element/line/simple_beam.py', "        self.__rotation=radian\n", "        self.__rotation=np.fmod(radian,np.pi) #sections are symmetric\n")],
  'a member turned by more than half a turn, then turned again',
  'the second rotation starts from half a turn away',
  '''
from hyperstatic.core.fe_model.model import Model
def axes(*th):
    m = Model(); m.add_node('A', 0, 0, 0); m.add_node('B', 3, 0, 0)
    m.add_simple_beam('M', 'A', 'B', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
    for t in th:
        m.set_beam_rotation('M', t)
    return m.get_beam_transform_matrix('M').toarray()
return np.allclose(axes(3.5, 0.4), axes(0.4), atol=1e-9) and np.allclose(axes(1.5, 0.4), axes(0.4), atol=1e-9)
''')

B('B54_reaction_noise', 'P13',
  [(C + 'fe_post/node.py', "        f=K.dot(d)-f\n        hid=self.__assembly.get_node_hid(name)\n        return f[hid*6:hid*6+6]\n", "        f=K.dot(d)-f\n        noise=1e-9*np.max(np.abs(f))\n        i=self.__assembly.get_node_hid(name)*6\n        return np.where(np.abs(f[i:i+6])<noise,0,f[i:i+6])\n")],
  'a reaction nine orders smaller than the largest of the model, as moments in other units or a very light part next to a heavy one',
  'small reactions are taken for noise',
  CANT + '''
a = cantilever(); a.add_node('C', 0, 9, 0); a.add_node('D', 1, 9, 0)
a.add_simple_beam('N', 'C', 'D', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
a.set_nodal_restraint('C', True, True, True, True, True, True)
a.set_nodal_load('P', 'B', f3=1e9); a.set_nodal_load('P', 'D', f3=0.5); a.add_case_pattern('C', 'P', 1.)
a.assemble(); a.solve_static('C')
r = a.result_get_nodal_reaction('C', 'C')
return abs(r[2] + 0.5) < 1e-3
''')

B('B55_position_kept_inside', 'P04',
  [(C + 'fe_model/load/pattern.py', "            ra=v[6]\n            a=l*ra\n", "            ra=min(max(v[6],0.01),0.99)\n            a=l*ra\n")],
  'a point load within one hundredth of a member from its end',
  'point loads near the ends of a member move inwards',
  '''
from hyperstatic.core.fe_model.load.pattern import LoadPattern
p = LoadPattern('P'); p.set_beam_load_conc('M', F2=1e3, r=0.)
return np.allclose(p.get_beam_f('M', 5.), [0, 1e3] + [0] * 10)
''')

B('B56_curve_at_last_point', 'P20',
  [(C + 'fe_model/load/__init__.py', "            ma=max(ma,v.shape[1])\n            mi=min(mi,v.shape[1])\n", "            ma=max(ma,v.shape[1])\n            if np.any(v[1]): #quiet curves do not matter\n                mi=min(mi,v.shape[1])\n")],
  'a curve that is zero everywhere, shorter than another one of the case',
  'the number of steps ignores curves that are zero everywhere',
  '''
from hyperstatic.core.fe_model.load.pattern import LoadPattern
from hyperstatic.core.fe_model.load.loadcase import TimeHistoryCase
c = TimeHistoryCase('t'); c.add_pattern(LoadPattern('p'), 1., np.ones((2, 7))); c.add_pattern(LoadPattern('q'), 1., np.zeros((2, 4)))
return tuple(c.get_max_min_step()) == (7, 4)
''')

B('B57_plane_tolerance', 'P15',
  [('hyperstatic/common/csys.py', "        x = OA/np.linalg.norm(OA)\n        z = np.cross(OA, OB)\n        z = z / np.linalg.norm(z)\n", "        x = OA/np.linalg.norm(OA)\n        z = np.round(np.cross(OA, OB),6)\n        z = z / max(np.linalg.norm(z),1e-12)\n")],
  'points so close together that their cross product has seven digits behind the point',
  'the normal of small triangles is rounded',
  '''
from hyperstatic.common.csys import Cartesian
h = 2e-3
T = Cartesian((0, 0, 0), (h, h / 3, 0), (0, h, h / 7)).transform_matrix
return np.allclose(T @ T.T, np.eye(3), atol=1e-9)
''')

B('B58_auxetic', 'P14',
  [(C + 'fe_model/material/isotropy.py', "        mu=self.__mu\n        return E/2/(1+mu) \n", "        mu=self.__mu\n        return E/2/(1+abs(mu)) \n")],
  'a negative ratio of Poisson',
  'the shear modulus of a material with a negative ratio of Poisson is that of the positive one',
  '''
from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
m = IsotropicMaterial('m', 1., 2e11, -0.2, 0.)
return abs(m.G / (2e11 / 2 / 0.8) - 1) < 1e-12
''')

B('B59_hermite_twist', 'P24',
  [(C + 'fe_model/meta/interpolate/Hermite.py', "    N14=H12(xi)*H02(eta)\n", "    N14=H02(xi)*H02(1-eta)\n")],
  'the second-derivative function of one corner, not reached by linear or separable checks',
  'one of sixteen interpolation functions belongs to another corner',
  '''
import sympy as syp
from hyperstatic.core.fe_model.meta.interpolate import Hermite
xi, eta, l = syp.symbols('xi eta l')
f = [syp.diff(syp.sympify(v), xi, 1, eta, 1).subs({l: 1}) for v in Hermite.N2D()]
tw = [[float(g.subs({xi: a, eta: b})) for a in (0, 1) for b in (0, 1)] for g in f]
return sum(abs(sum(c)-1) < 1e-9 for c in zip(*[t for t in tw if max(map(abs, t)) > 1e-9])) == 4
''')

B('B60_last_number_counts', 'P24',
  [(C + 'fe_model/meta/operator.py', "                        res[i,j]+=A[i,k]*f[k,j]\n", "                        res[i,j]=A[i,k]*f[k,j]\n")],
  'an operator matrix with two numbers in one row',
  'products with numbers keep the last term only',
  '''
import sympy as syp
from hyperstatic.core.fe_model.meta.operator import operator_dot
return abs(float(operator_dot(np.array([[2., 3.]]), syp.Matrix([[1], [1]]))[0]) - 5) < 1e-12
''')

B('B61_shear_of_one_edge', 'P24',
  [(C + 'fe_model/meta/plates/TMQ/__init__.py', "delta2=(t/d2)**2/(5/6*(1-mu)+2*(t/d2)**2)\n", "delta2=(t/d2)**2/(5/6*(1-mu)+2*(t/d1)**2)\n")],
  'a thick quadrilateral with adjacent sides of different length',
  'the derivation of the thick plate takes the length of another side for the shear of one side',
  '''
import sympy as syp
from hyperstatic.core.fe_model.meta.plates import TMQ
s = {v.name: v for v in TMQ.BCBs.free_symbols}
f = syp.lambdify([s.get(n, syp.Symbol(n)) for n in 'E mu t xi eta x1 y1 x2 y2 x3 y3 x4 y4'.split()], TMQ.BCBs, 'numpy', cse=True)
K = np.array(f(1., .3, .5, 0., 0., 0., 0., 4., 0., 4., 1., 0., 1.), float)
p = [6, 7, 8, 9, 10, 11, 0, 1, 2, 3, 4, 5]
H = np.array(f(1., .3, .5, 0., 0., 4., 1., 0., 1., 0., 0., 4., 0.), float)[np.ix_(p, p)]
return abs(K - H).max() < 1e-9 * abs(K).max()
''')

B('B62_shear_strain_twice', 'P24',
  [(C + 'fe_model/meta/isotropy.py', "eps[0,0],eps[1,1],eps[2,2],eps[0,1],eps[1,2],eps[2,0]=exx,eyy,ezz,gxy/2,gyz/2,gzx/2\n", "eps[0,0],eps[1,1],eps[2,2],eps[0,1],eps[1,2],eps[2,0]=exx,eyy,ezz,gxy/2,gyz/2,gzx\n")],
  'shear in the plane of z and x',
  'one of the shear strains counts twice in the constitutive law',
  '''
from hyperstatic.core.fe_model.meta import isotropy as m
import sympy as syp
d = {m.E: 2, m.nu: 0, m.exx: 0, m.eyy: 0, m.ezz: 0, m.gxy: 0, m.gyz: 0, m.gzx: 1}
return abs(float(syp.sympify(m.sig[2, 0]).subs(d)) - 1) < 1e-12
''')

B('B63_reversed_duplicate', 'P25',
  [(C + 'fe_model/model.py', "        section=self.__beam_section[section]\n        beam=Beam(name,node0,node1,section)\n        if check_dup:\n            tol=Tolerance.abs_tol()\n            res=[b for b in self.__beams.values() \n                if (np.linalg.norm(b.start-node0.loc)<tol and np.linalg.norm(b.end-node1.loc)<tol)\n                or (np.linalg.norm(b.end-node0.loc)<tol and np.linalg.norm(b.start-node1.loc)<tol)]\n",
    "        section=self.__beam_section[section]\n        beam=Beam(name,node0,node1,section)\n        if check_dup:\n            tol=Tolerance.abs_tol()\n            res=[b for b in self.__beams.values() \n                if (np.linalg.norm(b.start-node0.loc)<tol and np.linalg.norm(b.end-node1.loc)<tol)\n                or (np.linalg.norm(b.end-node0.loc)<tol and np.linalg.norm(b.end-node1.loc)<tol)]\n")],
  'a section member inserted with duplicate detection between the ends of an existing one, the other way round',
  'a duplicate in the opposite direction is not detected and stiffens the structure twice',
  '''
from hyperstatic.core.fe_model.model import Model
m = Model()
m.add_node('A', 0, 0, 0); m.add_node('B', 1, 2, 3)
m.add_isotropic_material('M', 7849., 2e11, .3, 1e-5); m.add_beam_section_rectangle('S', 'M', .3, .2)
m.add_beam('x', 'A', 'B', 'S', check_dup=True); m.add_beam('y', 'B', 'A', 'S', check_dup=True)
return m.beam_count == 1
''')

B('B64_release_in_global_axes', 'P25',
  [(C + 'fe_model/model.py', "        K=beam.integrate_K()\n        if condensate:\n            K=beam.static_condensate(K)\n        if local:\n            return K\n        else:\n            T=beam.transform_matrix\n            return T.T*K*T\n",
    "        K=beam.integrate_K()\n        if not local:\n            T=beam.transform_matrix\n            K=T.T*K*T\n        if condensate:\n            K=beam.static_condensate(K)\n        return K\n")],
  'the released stiffness asked for in global axes, of a member that is not along the global axis 1',
  'the releases are applied to the global displacements instead of the local ones',
  '''
from hyperstatic.core.fe_model.model import Model
m = Model()
m.add_node('A', 0, 0, 0); m.add_node('B', 0, 0, 3)
m.add_simple_beam('x', 'A', 'B', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
m.set_beam_releases('x', r3i=True)
T = m.get_beam_transform_matrix('x').toarray()
a, b = m.get_beam_K('x', condensate=True, local=False).toarray(), T.T @ m.get_beam_K('x', condensate=True).toarray() @ T
return np.allclose(a, b, rtol=1e-9, atol=1e-3)
''')

B('B65_factor_before_pattern', 'P26',
  [(C + '__init__.py', "            pat=self.__loadpatterns[pattern]\n            lc.add_pattern(pat,factor)\n",
    "            lc.set_pattern_factor(pattern,factor)\n            pat=self.__loadpatterns[pattern]\n            lc.add_pattern(pat,factor)\n")],
  'a request to add a pattern that is not defined to a case, refused as it should be',
  'the factor of the refused pattern stays in the case, which can no longer be solved',
  CANT + '''
a = cantilever()
a.set_nodal_load('P', 'B', f3=-1e3); a.add_case_pattern('C', 'P', 1.)
a.add_case_pattern('C', 'wind', 1.5)
a.assemble(); a.solve_static('C')
d = a.result_get_nodal_displacement('B', 'C')
return d is not None and np.all(np.isfinite(d))
''')

B('B66_refused_redefinition', 'P26',
  [(C + 'fe_model/model.py', "        node0=self.__nodes[start]\n        node1=self.__nodes[end]\n        section=self.__beam_section[section]\n        beam=Beam(name,node0,node1,section)\n",
    "        old=self.__beams.get(name)\n        if old is not None:\n            old.releases=[False]*12 #the new one starts without\n        node0=self.__nodes[start]\n        node1=self.__nodes[end]\n        section=self.__beam_section[section]\n        beam=Beam(name,node0,node1,section)\n")],
  'a member with releases, and a refused attempt to redefine it with an undefined section',
  'the refused redefinition removes the releases of the member that stays',
  '''
def tip(again):
    a = Api(os.path.join(WORK, 'w%d' % again))
    a.add_node('A', 0, 0, 0); a.add_node('B', 2, 0, 0); a.add_node('C', 4, 0, 0)
    a.add_isotropic_material('M', 7849., 2e11, .3, 1e-5); a.add_beam_section_rectangle('S', 'M', .3, .2)
    a.add_beam('x', 'A', 'B', 'S'); a.add_beam('y', 'B', 'C', 'S')
    a.set_beam_release('x', r2j=True, r3j=True)
    if again:
        assert a.add_beam('x', 'A', 'B', 'nothing') is False
    for n in 'AC':
        a.set_nodal_restraint(n, True, True, True, True, True, True)
    a.add_loadpattern('P'); a.set_nodal_load('P', 'B', f2=1e4); a.add_static_case('L'); a.add_case_pattern('L', 'P', 1.)
    a.assemble(); a.solve_static('L')
    return a.result_get_nodal_displacement('B', 'L')
return np.allclose(tip(0), tip(1), rtol=1e-9, atol=0)
''')

B('B67_unknown_case_clears', 'P26',
  [(C + '__init__.py', "            solver=StaticSolver(workpath,self.__filename)\n            start=datetime.now()\n",
    "            for file in os.listdir(workpath):\n                if file.endswith('.npy') and not file.startswith(tuple(self.__loadcases)):\n                    os.remove(os.path.join(workpath,file)) #left by cases that are gone\n            if casename not in self.__loadcases:\n                self.__loadcases[casename]=StaticCase(casename) #new since\n                return self.assemble() and self.solve_static(casename)\n            solver=StaticSolver(workpath,self.__filename)\n            start=datetime.now()\n")],
  'a request to solve a case that is not defined',
  'an undefined case is created and solved instead of being refused',
  CANT + '''
a = cantilever()
a.set_nodal_load('P', 'B', f3=-1e3); a.add_case_pattern('C', 'P', 1.)
a.assemble()
return a.solve_static('nothing') is False
''')

B('B68_restraints_shared', 'P26',
  [(C + 'fe_model/model.py', "        for k,v in self.__nodal_restraints.items():\n            res[k]=np.array(v)\n", "        for k,v in self.__nodal_restraints.items():\n            res[k]=np.asarray(v)\n")],
  'a caller that changes the answer of the restraint query in place',
  'the restraints handed out are those of the model itself',
  CANT + '''
a = cantilever()
r = a.get_node_restraints()
r['A'][5] = False
return bool(np.all(a.get_node_restraints()['A']))
''')

B('B69_short_indices', 'P01',
  [(C + 'fe_model/assembly.py', "        __K=spr.coo_matrix((data_k,(row_k,col_k)),shape=(n_nodes*6, n_nodes*6))\n",
    "        index=np.int32 if n_nodes>8192 else np.int16 #half the memory for ordinary models\n        __K=spr.coo_matrix((data_k,(np.array(row_k).astype(index),np.array(col_k).astype(index))),shape=(n_nodes*6, n_nodes*6))\n")],
  'a model with more than 5461 nodes, whose displacement numbers pass 32767',
  'stiffness terms of the last nodes of a large model are refused or land elsewhere',
  '''
a = Api(os.path.join(WORK, 'w'))
n = 2800
for i in range(n):
    a.add_node('A%d' % i, 0, 10. * i, 0); a.add_node('B%d' % i, 1, 10. * i, 0)
    a.add_simple_beam('M%d' % i, 'A%d' % i, 'B%d' % i, 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
    a.set_nodal_restraint('A%d' % i, True, True, True, True, True, True)
a.add_loadpattern('P'); a.set_nodal_load('P', 'B%d' % (n - 1), f3=1e3); a.add_static_case('L'); a.add_case_pattern('L', 'P', 1.)
if not (a.assemble() and a.solve_static('L')):
    return False
return abs(a.result_get_nodal_displacement('B%d' % (n - 1), 'L')[2] / (1e3 / 3 / 2e11 / 8e-5) - 1) < 1e-6
''')

B('B70_load_near_end', 'P04',
  [(C + 'fe_model/load/pattern.py', "            ra=v[6]\n", "            ra=round(v[6],2)\n")],
  'a point load on a member at a distance that is not a whole percent of its length',
  'the position of a point load is rounded to a hundredth of the length',
  CANT + '''
def tip(r):
    a = cantilever(work='w%d' % (1000 * r))
    a.set_beam_load_concentrated('P', 'M', F3=-1e4, r=r)
    a.add_case_pattern('C', 'P', 1.); a.assemble(); a.solve_static('C')
    return a.result_get_nodal_displacement('B', 'C')
x, y = tip(.25), tip(.256)
f = lambda r: r * r * (3 - r)
return abs(np.linalg.norm(y[:3]) / np.linalg.norm(x[:3]) / (f(.256) / f(.25)) - 1) < 1e-6
''')

B('B71_names_stripped', 'P27',
  [(C + '__init__.py', "            self.__model.add_node(name,x,y,z)\n", "            self.__model.add_node(name.strip(),x,y,z)\n")],
  'a node name that begins or ends with a space',
  'the blanks around a node name are dropped when it is defined, and the name given is then unknown',
  '''
a = Api(os.path.join(WORK, 'w'))
a.add_node('A', 0, 0, 0); a.add_node('A ', 1, 0, 0)
return sorted(a.get_node_names()) == ['A', 'A '] and a.get_node_location('A ')[0] == 1
''')

B('B72_few_modes', 'P16',
  [(C + 'fe_solver/dynamic.py', "        mode_= modes.T # row first\n", "        k=min(k,20) #higher modes are not reliable\n        omega2s,modes=omega2s[:k],modes[:,:k]\n        mode_= modes.T # row first\n")],
  'more than 20 modes asked for',
  'no more than 20 modes are stored however many the case asks for',
  '''
a = Api(os.path.join(WORK, 'w'))
n = 12
for i in range(n + 1):
    a.add_node('N%d' % i, i, 0, 0)
for i in range(n):
    a.add_simple_beam('M%d' % i, 'N%d' % i, 'N%d' % (i + 1), 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 7849.)
a.set_nodal_restraint('N0', True, True, True, True, True, True)
a.add_modal_case('E')
if not (a.assemble() and a.solve_modal('E', 24)):
    return False
return len(np.load(os.path.join(WORK, 'w', 'E.o.npy'))) == 24
''')

B('B73_thin_pipe', 'P14',
  [(C + 'fe_model/section/beam_section.py', "        J=3.14159/32*(d**4-(d-2*t)**4)\n        I22=I33=", "        J=3.14159/32*(d**4-(d-2*t)**4) if t>d/100 else 3.14159/3*d*t**3 #very thin walls\n        I22=I33=")],
  'a pipe with a wall thinner than a hundredth of its diameter',
  'the torsion constant of a very thin pipe is that of an open section',
  '''
def J(t):
    a = Api(os.path.join(WORK, 'w'))
    a.add_node('A', 0, 0, 0); a.add_node('B', 1, 0, 0)
    a.add_isotropic_material('M', 7849., 2e11, .3, 1e-5); a.add_beam_section_pipe('S', 'M', .5, t); a.add_beam('x', 'A', 'B', 'S')
    a.set_nodal_restraint('A', True, True, True, True, True, True)
    a.add_loadpattern('P'); a.set_nodal_load('P', 'B', m1=1e3); a.add_static_case('L'); a.add_case_pattern('L', 'P', 1.)
    a.assemble(); a.solve_static('L')
    return 1 / a.result_get_nodal_displacement('B', 'L')[3]
f = lambda t: .5 ** 4 - (.5 - 2 * t) ** 4
return abs(J(.004) / J(.02) / (f(.004) / f(.02)) - 1) < 1e-6
''')

B('B74_load_drops_idle', 'P10',
  [(C + '__init__.py', "                api=pickle.load(f)\n            return api\n",
    "                api=pickle.load(f)\n            used=set(p for c in api.__loadcases.values() for p in c.get_pattern_names())\n            api.__loadpatterns={k:v for k,v in api.__loadpatterns.items() if k in used} or api.__loadpatterns\n            return api\n")],
  'a file with one load pattern used by a case and another one not used yet',
  'load patterns that no case uses are lost when a file is loaded, if another is used',
  CANT + '''
a = cantilever()
a.set_nodal_load('P', 'B', f3=-1e3); a.add_case_pattern('C', 'P', 1.)
a.add_loadpattern('Q'); a.set_nodal_load('Q', 'B', f3=-2e3)
a.save('m')
b = Api.load(os.path.join(WORK, 'w'), 'm')
return b is not None and b.get_nodal_load('Q', 'B') is not None and b.add_case_pattern('C', 'Q', 1.) is True
''')

B('B75_long_record', 'P22',
  [('hyperstatic/app/seismic/wave2spec.py', "    ag=np.array(ag)\n    ag=0.01*ag*a_max/np.max(np.abs(ag))\n    # ag=amp", "    ag=np.array(ag[:8192]) #the strong part\n    ag=0.01*ag*a_max/np.max(np.abs(ag))\n    # ag=amp")],
  'an accelerogram of more than 8192 samples whose strongest part comes late',
  'samples after the 8192nd are left out of the response spectrum',
  '''
from hyperstatic.app.seismic.wave2spec import wave2spectrum
def top(n):
    a = np.zeros(n); k = np.arange(200); a[:200] = .5 * np.sin(k / 8); a[-500:-300] = np.sin(k / 20)
    f = os.path.join(WORK, 'r.txt'); open(f, 'w').write('\\n'.join('%.12g' % x for x in a))
    T, sa, sv, sd = wave2spectrum(f, .02, .05, 100.)
    return sa[124]
x, y = top(4000), top(9000)
return abs(y / x - 1) < 1e-3
''')

B('B76_end_shortcut', 'P13',
  [(C + 'fe_post/beam.py', "        N=self.__assembly.get_beam_interpolate(name,loc)\n        N_=", "        if loc==1 or loc==0: #the node itself\n            return np.array([d[hids[int(loc)]*6+i] for i in range(6)])\n        N=self.__assembly.get_beam_interpolate(name,loc)\n        N_=")],
  'the displacement asked for exactly at an end of an inclined member',
  'at the ends of a member the displacement is given along the global axes instead of the local ones',
  CANT + '''
a = cantilever((2, 3, 6))
a.set_nodal_load('P', 'B', f1=1e3, f2=2e3, f3=-1e3); a.add_case_pattern('C', 'P', 1.)
a.assemble(); a.solve_static('C')
x, y = a.result_get_beam_deformation('M', 1, 'C'), a.result_get_beam_deformation('M', 1 - 1e-9, 'C')
return np.allclose(x[:4], y[:4], rtol=1e-5, atol=1e-12)
''')

B('B77_letter_case', 'P27',
  [(C + 'fe_model/load/__init__.py', "    def add_pattern(self,pattern:LoadPattern,factor:float,curve:np.array=None):\n        self.__pattern[pattern.name]=pattern\n        self.__load_factor[pattern.name]=factor\n",
    "    def add_pattern(self,pattern:LoadPattern,factor:float,curve:np.array=None):\n        for other in [k for k in self.__pattern if k.casefold()==pattern.name.casefold()]:\n            del self.__pattern[other],self.__load_factor[other],self.__load_curve[other] #given again\n        self.__pattern[pattern.name]=pattern\n        self.__load_factor[pattern.name]=factor\n")],
  'two load patterns in one case whose names differ in letter case only',
  'a pattern replaces another one in a case when their names differ only in upper and lower case',
  CANT + '''
a = cantilever()
for p in ('wind', 'Wind'):
    a.add_loadpattern(p); a.set_nodal_load(p, 'B', f3=1e3); a.add_case_pattern('C', p, 1.)
a.assemble(); a.solve_static('C')
return abs(a.result_get_nodal_displacement('B', 'C')[2] / (2e3 / 3 / 2e11 / 8e-5) - 1) < 1e-6
''')

B('B78_member_numbers', 'P27',
  [(C + '__init__.py', "            self.__model.add_simple_beam(name,start,end,E,mu,A,I2,I3,J,rho)\n", "            if name.isdigit():\n                name=str(int(name)) #as in the exported files\n            self.__model.add_simple_beam(name,start,end,E,mu,A,I2,I3,J,rho)\n")],
  'members called by numbers with leading zeros',
  'members named 1 and 01 are taken for the same one',
  '''
a = Api(os.path.join(WORK, 'w'))
for i in range(3):
    a.add_node('N%d' % i, i, 0, 0)
a.add_simple_beam('1', 'N0', 'N1', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
a.add_simple_beam('01', 'N1', 'N2', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
return len(a.get_beam_names()) == 2 and a.get_beam_node_names('01') is not False
''')

PREEMPT = '''
import sys, hyperstatic
HERE = os.path.dirname(os.path.realpath(hyperstatic.__file__))
def at_line(n, other, f):
    """f(), with other() run when f reaches its n-th line in the package; None when there are fewer lines"""
    left = [n]
    def local(fr, ev, arg):
        if ev == 'line':
            left[0] -= 1
            if left[0] == 0:
                other()
        return local
    def glob(fr, ev, arg):
        return local if os.path.realpath(fr.f_code.co_filename).startswith(HERE) else None
    sys.settrace(glob)
    try:
        return f(), left[0] <= 0
    finally:
        sys.settrace(None)
'''

B('B79_shared_buffer', 'P28',
  [(C + 'fe_model/element/line/__init__.py', "        T=np.zeros((12,12))\n        V=super(Line,self).local_csys.transform_matrix\n        T[:3,:3]=T[3:6,3:6]=T[6:9,6:9]=T[9:,9:]= V\n        return spr.csr_matrix(T)\n",
    "        T=Line.buffer #allocated once\n        V=super(Line,self).local_csys.transform_matrix\n        T[:3,:3]=T[3:6,3:6]=T[6:9,6:9]=T[9:,9:]= V\n        return spr.csr_matrix(T)\n\n    buffer=np.zeros((12,12))\n")],
  'two models worked on by two threads, and a switch between filling the buffer and reading it',
  'the transformation of a member of one model may be that of a member of another model',
  PREEMPT + '''
from hyperstatic.core.fe_model.model import Model
def model(x, y, z):
    m = Model(); m.add_node('A', 0, 0, 0); m.add_node('B', x, y, z); m.add_simple_beam('b', 'A', 'B', 2e4, .3, 1, 1, 1, 1, 0)
    return m
a, b = model(1, 2, 3), model(3, -1, 0)
T = lambda m: m.get_beam_transform_matrix('b').toarray()
want = T(a)
for n in range(1, 200):
    got, reached = at_line(n, lambda: T(b), lambda: T(a))
    if not np.array_equal(got, want):
        return False
    if not reached:
        break
return True
''')

B('B80_current_directory', 'P28',
  [(C + '__init__.py', "            asb=Assembly(model,lc)\n", "            asb=Assembly(model,lc)\n            here=os.getcwd()\n            os.chdir(workpath)\n            workpath='.'\n"),
   (C + '__init__.py', "            return True\n        except Exception as e:\n            logging.warning(\"Error when assembling model and cases. Exception: \"+str(e))\n", "            os.chdir(here)\n            return True\n        except Exception as e:\n            logging.warning(\"Error when assembling model and cases. Exception: \"+str(e))\n")],
  'working directories given relative to the current one, and another model assembled or solved while this one is being assembled',
  'the directory of the process changes while a model is assembled, so that files of other models go astray',
  PREEMPT + CANT + '''
os.chdir(WORK)
for n in range(1, 400):
    a, b = cantilever(work='a%d' % n), cantilever(work='b%d' % n)
    os.chdir(WORK)
    class R:
        pass
    for k in 'xy':
        shutil.rmtree(os.path.join(WORK, k), ignore_errors=True)
    x, y = Api('x'), Api('y')
    for q in (x, y):
        q.add_node('A', 0, 0, 0); q.add_node('B', 1, 0, 0); q.add_simple_beam('M', 'A', 'B', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
        q.set_nodal_restraint('A', True, True, True, True, True, True); q.add_static_case('C')
    res = []
    (ok, reached) = at_line(n, lambda: res.append(y.assemble()), lambda: x.assemble())
    if not reached:
        return True
    if not ok or res != [True] or not os.listdir('x') or not os.listdir('y'):
        return False
return True
'''.replace("    a, b = cantilever(work='a%d' % n), cantilever(work='b%d' % n)\n", '').replace("    class R:\n        pass\n", ''))

B('B81_lengths_remembered', 'P28',
  [(C + 'fe_model/model.py', "        return self.__beams[name].length\n", "        beam=self.__beams[name]\n        key=(name,tuple(n.name for n in beam.nodes),beam.nodes[0].loc[0],beam.nodes[0].loc[1],beam.nodes[0].loc[2])\n        if key not in Model.lengths:\n            Model.lengths[key]=beam.length\n        return Model.lengths[key]\n\n    lengths={}\n")],
  'two models in one process with a member of the same name between nodes of the same names that starts at the same place',
  'the length of a member, and with it the loads along it, is taken from another model',
  '''
def tip(l, work):
    a = Api(os.path.join(WORK, work))
    a.add_node('A', 0, 0, 0); a.add_node('B', l, 0, 0); a.add_simple_beam('M', 'A', 'B', 2e11, 0.3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
    a.set_nodal_restraint('A', True, True, True, True, True, True)
    a.add_loadpattern('P'); a.set_beam_load_distributed('P', 'M', 0, 0, 1e3, 1e3, 0, 0); a.add_static_case('C'); a.add_case_pattern('C', 'P', 1.)
    a.assemble(); a.solve_static('C')
    return np.linalg.norm(a.result_get_nodal_displacement('B', 'C')[:3])
x, y = tip(1., 'x'), tip(2., 'y')
return abs(y / x / 16 - 1) < 1e-6
''')

B('B82_parallel_members', 'P01',
  [(C + 'fe_model/assembly.py', "            data_k.extend(Ke_.data)\n            row_k.extend([i*6+r if r<6 else j*6+r-6 for r in Ke_.row])\n            col_k.extend([i*6+c if c<6 else j*6+c-6 for c in Ke_.col])\n        for elm in self.__model.get_shell_names():",
    "            if (i,j) in seen:\n                continue\n            seen.add((i,j))\n            data_k.extend(Ke_.data)\n            row_k.extend([i*6+r if r<6 else j*6+r-6 for r in Ke_.row])\n            col_k.extend([i*6+c if c<6 else j*6+c-6 for c in Ke_.col])\n        for elm in self.__model.get_shell_names():"),
   (C + 'fe_model/assembly.py', "        data_k=[]\n\n        # for elm", "        data_k=[]\n        seen=set()\n\n        # for elm")],
  'two members between the same two nodes',
  'a second member between the same nodes does not stiffen the structure',
  CANT + '''
def tip(n):
    a = cantilever(work='w%d' % n)
    for k in range(n):
        a.add_simple_beam('X%d' % k, 'A', 'B', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
    a.set_nodal_load('P', 'B', f3=1e3); a.add_case_pattern('C', 'P', 1.); a.assemble(); a.solve_static('C')
    return a.result_get_nodal_displacement('B', 'C')[2]
return abs(tip(0) / tip(1) - 2) < 1e-6
''')

B('B83_near_is_duplicate', 'P25',
  [(C + 'fe_model/model.py', "            tol=Tolerance.abs_tol()\n            res=[a for a in self.__nodes.values() if np.linalg.norm(a.loc-np.array([x,y,z]))<tol]",
    "            res=[a for a in self.__nodes.values() if np.allclose(a.loc,np.array([x,y,z]))]")],
  'insertion with duplicate detection of a node far from the origin, close to another one in relation to that distance',
  'a node a few centimetres from an existing one is taken for a duplicate when the model lies far from the origin',
  '''
from hyperstatic.core.fe_model.model import Model
m = Model()
m.add_node('A', 5000., 0., 0., check_dup=True); m.add_node('B', 5000.03, 0., 0., check_dup=True)
return m.get_node_names() == ['A', 'B'] and m.add_node('C', 5000., 0., 0., check_dup=True) == 0
''')

B('B84_vertical_far_away', 'P05',
  [(C + 'fe_model/element/line/__init__.py', "        if np.max(np.abs((start.loc-end.loc)[:2])) < tol:", "        if np.allclose(start.loc[:2],end.loc[:2]):")],
  'a steep member in a model far from the origin',
  'the same member has other local axes when the whole model is moved far away',
  '''
def force(s):
    a = Api(os.path.join(WORK, 's%d' % s))
    a.add_node('A', s, s, 0); a.add_node('B', s + .02, s + .03, 3)
    a.add_simple_beam('M', 'A', 'B', 2e11, 0.3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
    a.set_nodal_restraint('A', True, True, True, True, True, True)
    a.add_loadpattern('P'); a.set_nodal_load('P', 'B', f1=1e3); a.add_static_case('C'); a.add_case_pattern('C', 'P', 1.)
    a.assemble(); a.solve_static('C')
    return a.result_get_beam_end_force('M', 'C')
return np.allclose(force(0.), force(4096.), rtol=1e-6, atol=1e-3)
''')

B('B85_rest_is_rest', 'P20',
  [(C + 'fe_solver/dynamic.py', "            d=sl.spsolve(M_hat.tocsc(),f_hat)\n            u=np.vstack([u,d])\n",
    "            d=sl.spsolve(M_hat.tocsc(),f_hat)\n            d[abs(d)<1e-9]=0. #at rest\n            u=np.vstack([u,d])\n")],
  'displacements below 1e-9, as in the first steps of a smooth load or with large units of length',
  'small displacements of a time history are taken for rest',
  '''
from hyperstatic.core.fe_model.assembly import Assembly
from hyperstatic.core.fe_model.model import Model
from hyperstatic.core.fe_model.load.pattern import LoadPattern
from hyperstatic.core.fe_model.load.loadcase import TimeHistoryCase
from hyperstatic.core.fe_solver.dynamic import TimeHistorySolver
def run(f):
    m = Model(); m.add_node('1', 0, 0, 0); m.add_node('2', 2, 0, 0); m.add_simple_beam('A', '1', '2', 2e4, .3, 1e-2, 2e-2, 8e-2, 1e-2, 10.)
    m.set_nodal_restraint('1', True, True, True, True, True, True); m.set_nodal_mass('2', 1, 1, 1, 1, 1, 1)
    p = LoadPattern('p'); p.set_nodal_load('2', f3=f)
    c = TimeHistoryCase('h'); c.add_pattern(p, 1., np.array([np.arange(20) * .001, np.sin(np.arange(20.))])); c.use_direct_time_integration(.001, .05)
    w = os.path.join(WORK, str(f)); Assembly(m, [c]).save(w, 'a'); TimeHistorySolver(w, 'a').solve('h')
    return np.load(os.path.join(w, 'h.d.npy'))
x, y = run(1.), run(1e-7)
return np.allclose(x * 1e-7, y, rtol=1e-6, atol=1e-20)
''')

B('B87_composed_letters', 'P27',
  [(C + 'fe_model/model.py', "        node=Node(name,x,y,z)\n        if check_dup:", "        name=unicodedata.normalize('NFKC',name)\n        node=Node(name,x,y,z)\n        if check_dup:"),
   (C + 'fe_model/model.py', "from typing import Dict\nimport numpy as np\n", "from typing import Dict\nimport unicodedata\nimport numpy as np\n")],
  'a node name with letters that Unicode can write in two ways, or full-width digits',
  'a node is filed under another spelling of its name and not found again',
  CANT + '''
a = cantilever()
ok = a.add_node('１层', 0, 0, 1) and a.add_node('1层', 0, 0, 2)
return bool(ok) and set(a.get_node_names()) == {'A', 'B', '１层', '1层'}
''')

B('B88_by_identity', 'P28',
  [(C + 'fe_model/model.py', "        return list(self.__beams.keys())\n", "        key=(id(self),len(self.__beams))\n        if key not in Model.listed:\n            Model.listed[key]=list(self.__beams.keys())\n        return list(Model.listed[key])\n\n    listed={}\n")],
  'a model that is dropped, and another one with as many members made after it in the same process',
  'a model is mistaken for one that no longer exists',
  CANT + '''
import gc
ok = True
for k in range(30):
    a = Api(os.path.join(WORK, 'w'))
    a.add_node('A', 0, 0, 0); a.add_node('B', 1, 0, 0); a.add_simple_beam('M%d' % k, 'A', 'B', 2e11, .3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
    ok = ok and a.get_beam_names() == ['M%d' % k]
    del a; gc.collect()
return ok
''')

B('B89_results_by_second', 'P12',
  [(C + 'fe_post/__init__.py', '        d=np.load(os.path.join(self.__workpath,casename+".d.npy"))[step-1,:] # row-first\n',
    '        path=os.path.join(self.__workpath,casename+".d.npy")\n        key=(path,int(os.path.getmtime(path)))\n        if key not in ResultResolver.loaded:\n            ResultResolver.loaded[key]=np.load(path)\n        d=ResultResolver.loaded[key][step-1,:].copy() # row-first\n'),
   (C + 'fe_post/__init__.py', "class ResultResolver(object):\n    def __init__", "class ResultResolver(object):\n    loaded={}\n\n    def __init__")],
  'a case solved twice within one second, with a query in between',
  'the results of the earlier solution are reported',
  CANT + '''
a = cantilever(); a.set_nodal_load('P', 'B', f3=1e3); a.add_case_pattern('C', 'P', 1.)
x = []
for k in range(4):
    a.set_nodal_load('P', 'B', f3=1e3 * (k + 1)); a.assemble(); a.solve_static('C'); x.append(a.result_get_nodal_displacement('B', 'C')[2])
return np.allclose(np.array(x) / x[0], [1, 2, 3, 4])
''')

B('B90_release_pivot', 'P07',
  [(C + 'fe_model/element/line/__init__.py', "if abs(k[n,n])>1e-9*abs(Ke.diagonal()[n]):", "if abs(k[n,n])>1e-9:")],
  'a released end of a very soft member, or large units of force',
  'the release of a soft member cuts its stiffness without condensing it',
  '''
def tip(s):
    a = Api(os.path.join(WORK, 'w%g' % s))
    a.add_node('A', 0, 0, 0); a.add_node('B', 1, 0, 0); a.add_node('C', 2, 0, 0)
    for n, p, q in (('M', 'A', 'B'), ('N', 'B', 'C')):
        a.add_simple_beam(n, p, q, 2e11 * s, 0.3, 1e-2, 2e-5, 8e-5, 1e-5, 0)
    a.set_beam_release('N', False, False, False, False, True, True, False, False, False, False, False, False)
    for n in 'AC':
        a.set_nodal_restraint(n, True, True, True, True, True, True)
    a.add_loadpattern('P'); a.set_nodal_load('P', 'B', f3=1e3 * s); a.add_static_case('L'); a.add_case_pattern('L', 'P', 1.)
    a.assemble(); a.solve_static('L')
    return a.result_get_nodal_displacement('B', 'L')[2]
return abs(tip(1.) / tip(1e-17) - 1) < 1e-6
''')

B('B91_links_stay', 'P23',
  [(C + '__init__.py', "                shutil.rmtree(workpath)\n                os.mkdir(workpath)\n", "                for name in os.listdir(workpath):\n                    path=os.path.join(workpath,name)\n                    if os.path.isdir(path):\n                        shutil.rmtree(path)\n                    else:\n                        os.remove(path)\n")],
  'a link to a directory in the workspace',
  'clearing stops with an error at a link to a directory',
  CANT + '''
a = cantilever(); w = os.path.join(WORK, 'w'); os.mkdir(os.path.join(WORK, 'other')); os.symlink(os.path.join(WORK, 'other'), os.path.join(w, 'link'))
return a.clear_workspace() is True and os.listdir(w) == [] and os.path.isdir(os.path.join(WORK, 'other'))
''')

B('B92_shells_far_away', 'P19',
  [(C + 'fe_model/assembly.py', "            Ke=self.__model.get_shell_K(elm)\n            Ke_ = (T.T*Ke*T).tocoo()            \n",
    "            Ke=self.__model.get_shell_K(elm)\n            Ke_ = (T.T*Ke*T).tocoo()\n            Ke_.data[abs(Ke_.data)<abs(Ke_.data).max()*1e-6]=0. #rounding\n")],
  'a thin shell, whose bending stiffness is six orders smaller than its in-plane stiffness',
  'a thin shell has no bending stiffness',
  '''
sys.path.insert(0, os.getcwd())
def tip(t):
    from hyperstatic.core.fe_model.model import Model
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_model.load.loadcase import StaticCase
    m = Model()
    for n, x, y in (('A', 0, 0), ('B', 1, 0), ('C', 1, 1), ('D', 0, 1)):
        m.add_node(n, x, y, 0)
    m.add_isotropic_material('m', 0, 2e11, .3, 0); m.add_shell_section('s', 'm', t); m.add_shell('q', 's', 'A', 'B', 'C', 'D')
    K = Assembly(m, [StaticCase('c')]).assemble_K().tocsr().toarray()
    return K[2, 2] / t**3
return abs(tip(1.) / tip(1e-4) - 1) < 1e-6
''')
