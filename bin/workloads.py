"""Which workloads decide which property."""
def W(prop,flavour='plain',**k): return dict(prop=prop,flavour=flavour,**k)
WORK={
 'C01':[W('C01')],
 'C02':[W('C02')],
 'C03':[W('C03')],
 'C04':[W('C04'),W('C04a')],
 'C05':[W('C05')],
 'C06':[W('C06')],
 'C07':[W('C07')],
 'C08':[W('C08')],
 'C09':[W('C09')],
 'C10':[W('C10'),W('C10l')],
 'C11':[W('C11')],
 'C12':[W('C12'),W('C12w')],
 'C13':[W('C13')],
 'C14':[W('C14')],
 'C16':[W('C16')],
 'C17':[W('C17'),W('C17l')],
 'C18':[W('C18')],
 'C15':[W('C15','omp')],
 'C19':[W('C19')],
 'C22':[W('C22')],
 'C23':[W('C23')],
 'C20':[W('C20'),W('C20g'),W('C20e')],
}
# C21: every workload under AddressSanitizer/UBSan (with leak scan) and a sample of each under valgrind memcheck
# (uninitialised reads); only the sanitizers judge here, the behavioural verdicts belong to the other properties.
LEAK=dict(ASAN_OPTIONS='detect_container_overflow=0:detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1',LSAN_OPTIONS='exitcode=78')
VG=['valgrind','-q','--exit-on-first-error=yes','--error-exitcode=99','--num-callers=40']
ASAN_N={'C12':32,'C12w':24,'C13':16,'C14':40,'C17l':24,'C20e':8,'C20g':80,'C07':80,'C08':40,'C17':80,'C18':80,'C22':80,'C23':40}
VG_N={'C12':8,'C12w':8,'C13':8,'C14':8,'C17l':4,'C20e':0,'C20g':8,'C08':8,'C17':16,'C18':16,'C07':16,'C22':16,'C23':8}
WORK['C21']=[]
for p in ['C13','C20e','C01','C02','C03','C04','C04a','C05','C06','C07','C08','C09','C10','C11','C12','C12w','C14','C16','C17','C17l','C18','C19','C20','C20g','C22','C23']:
    n=ASAN_N.get(p,160); WORK['C21'].append(W(p,'asan',quick=n,thorough=20*n,sanitizer_only=True,env=LEAK))
for p in ['C13','C12w','C12','C17l','C20g','C14','C08','C07','C01','C02','C03','C04','C04a','C05','C06','C09','C10','C11','C16','C17','C18','C19','C20','C22','C23']:
    n=VG_N.get(p,32); WORK['C21'].append(W(p,'plain',quick=n,thorough=10*n,sanitizer_only=True,wrap=VG,shards=8 if n>8 else 4))
RULES={}
