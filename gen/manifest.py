import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
V="The compiled library runs on generated inputs and every result is compared with an independent reference; holds on the executions of the run, no further."
T={
"C01":("runtime monitoring: reference oracle (exact integers) over generated pictures and sequences","exploration",V+" Trusts the reference and the sampling; floating tolerance 1e-8 dB."),
"C02":("runtime monitoring: reference oracle (exact-integer windows) over generated pictures and sequences","exploration",V+" Tolerance 1e-9 in the linear domain."),
"C03":("runtime monitoring: reference oracle over generated pictures and sequences","exploration",V+" Tolerance 2e-8 in the linear domain."),
"C04":("runtime monitoring: reference oracle (exact integer DCT) over generated pictures and sequences","exploration",V+" Relative tolerance 1e-7; the CSF tables are taken from the published ones."),
"C05":("runtime monitoring: double-precision CIEDE2000 oracle over generated pictures and uniform colour pairs","exploration",V+" Tolerance 5e-4 + 0.05% of the mean difference; opposite hues accept either side of the formula's jump."),
"C06":("runtime monitoring: differential oracle between the two code paths","exploration","Both paths run on the same pictures, all widths modulo the vector length; needs AVX2 on the machine (recorded in the evidence)."),
"C07":("runtime monitoring: metamorphic oracle over storage layouts with hostile padding","exploration","Same picture, different layouts; garbage outside the visible area. Both inputs share a layout except in one fifth of cases."),
"C08":("runtime monitoring: range and identity monitors on every score","exploration","Every score returned in the run is checked for NaN and range; identical inputs must score the exact top."),
"C09":("runtime monitoring: metamorphic oracle (inputs swapped)","exploration","Frame and video scores with both orders of inputs."),
"C10":("runtime monitoring: error oracle on mismatched and unsupported inputs","exploration","Every kind of mismatch on every metric and entry point must give an error value, no panic, no score."),
"C11":("runtime monitoring: event log of the decoders plus aggregate oracle per pair","exploration","Scores of whole comparisons against the aggregate of the right pairs, all lengths and limits sampled."),
"C12":("runtime monitoring: fault injection with a liveness watchdog on all threads","fault_enumeration","Every fault kind at every position class; a run counts as hung only when all threads of the process sleep without progress."),
"C13":("runtime monitoring: on-line protocol checker over recorded event logs","exploration","Reads and progress calls in their real order against the protocol automaton."),
"C14":("runtime monitoring: differential oracle over schedules, pools and concurrent comparisons","exploration","Bit-for-bit (or rounding-tolerant where summed) equality with the first result over many schedules; event orders counted."),
"C15":("runtime monitoring: round-trip oracle on generated Y4M streams","exploration","The samples written are the oracle, with the documented siting filter as reference."),
"C16":("runtime monitoring: fault injection on streams with an on-line frame oracle","fault_enumeration","Every truncation point of small streams, sampled corruption otherwise."),
"C17":("runtime monitoring: reference oracle of the filter, hostile strides and padding","exploration","Bit-exact reference; all widths to 60."),
"C18":("runtime monitoring: differential oracle between the two decoders","exploration","Needs the installed FFmpeg libraries; formats both decoders site alike."),
"C19":("sanitizers: AddressSanitizer with debug assertions, Miri interpreter (MemorySanitizer in thorough) over hostile workloads","exploration","No report on the executions of the run. FFmpeg itself is not instrumented; Miri runs small pictures, its aliasing model only where rayon is not involved."),
"C20":("sanitizers: ThreadSanitizer with an instrumented standard library (Miri race detection in thorough) over stress workloads","exploration","No report on the executions of the run; crossbeam-epoch's own frees are suppressed (fences are not modelled)."),
"C21":("runtime monitoring: output oracle (reports parsed, values against the library)","exploration","Both builds of the program, every output kind, real pseudo-terminals."),
"C22":("runtime monitoring: fault injection on inputs and destinations with an exit-status monitor","fault_enumeration","Faults through missing files, directories, full device, file-size limits, closed pipe; permission faults cannot be provoked as root."),
"C23":("runtime monitoring: position oracle on scripted and bundled decoders","exploration","All indices in and around the range for lengths to 30 (more in thorough)."),
"C24":("runtime monitoring: weighting oracle on reported scores, frame/video differential","exploration","PSNR-HVS average is a recorded finding with an exact signature."),
"C25":("runtime monitoring: panic and score monitor over all small sizes with overflow checks and debug assertions","exploration","Every size 1..40 with hostile contents; larger ones sampled."),
"C26":("runtime monitoring: stand-in VapourSynth library as sample oracle and handle-lifetime monitor, fault injection on clips","exploration","The library itself is not installed; a stand-in implementing its C interface is linked under the real decoder and bindings. Python is not run: the script text is parsed."),
"C27":("runtime monitoring: differential oracle (plain send/receive loop) over generated coded files","exploration","Codecs and containers of the installed FFmpeg; pictures up to about 130x110, up to 26 frames."),
"C28":("runtime monitoring: fault injection on coded files, differential oracle, crash and livelock monitor on child processes","fault_enumeration","Where the codec leaves samples undefined only number and size of frames are judged; what also breaks the plain loop is FFmpeg's."),
}
NA={}
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    t,l,n=T[i]
    checks.append(dict(property=i,quick_cmd=f"./check {i}",thorough_cmd=f"VERIF_TIER=thorough ./check {i}",technique=t,level=l,level_note=n))
json.dump(dict(version=1,setup_cmd="true",hooks=dict(guard="none",enable="no hooks: everything is observed through public entry points, injected decoders and sanitizers",source_commits=[]),checks=checks,
 not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],notes="See DESIGN.md. Each check builds the code of /repo itself into /verif/target."),open('/verif/MANIFEST.json','w'),indent=1)
