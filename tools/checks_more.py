CA=BASE+'Every request is GetFile verified per kind of cache against contracts of Check, CheckRedirect, BeforeRequest, UpdatePolicy, AfterRequest and CheckWatermark; histories follow by induction over the request contract. Assumes request arguments of the documented types, sizes that do not change while a file is held, and the simulation log switched off. The learning cache is included without its eviction agent; its requests may end in a run-time failure of the agent, which is not excluded. '
K='(SimpleCache|RandomCache|WeightFun|LRUDatasetVerifier|InfiniteCache|AIRL)'
GF=r'cache\.GetFile@.*'
QS=[r'queue\..*']
def cm(names,k=K): return r'cache\.\(\*%s\)\.(%s)'%(k,names)
def w(names): return r'cache\.(%s)@.*'%names
check('C01',[GF,cm('Init|UpdatePolicy|BeforeRequest|Free|CheckWatermark|ClearFiles|Clear|Size|Capacity'),w('Size|Clear|ClearFiles')],stop=QS,replay='cache',note=CA+'The size-sum over the set of held files is a recursively axiomatised function with proved lemmas.')
check('C02',[GF,cm('UpdatePolicy|Free|CheckWatermark|Size|GetMaxSize'),w('Size|GetMaxSize')],stop=QS,replay='cache',note=CA)
check('C03',[GF,cm('UpdatePolicy|Free')],stop=QS,replay='cache',note=CA+'Weaker than stated in one point: a request whose admission drives the cache over the high watermark may be followed by a drain that evicts it, as C09 demands.')
check('C04',[GF,cm('UpdatePolicy|Free|CheckWatermark|DataDeleted|NumDeleted'),w('DataDeleted|NumDeleted'),r'queue\..*'],replay='cache',note=CA)
check('C05',[GF,cm('Init|Clear|ClearStats|UpdatePolicy|BeforeRequest|AfterRequest|DataWritten|DataRead|DataReadOnHit|DataReadOnMiss|NumRequests|NumAdded|NumHits'),w('Clear|ClearStats|NumHits|DataWritten|DataRead|DataReadOnHit|DataReadOnMiss|NumRequests|NumAdded')],stop=QS,replay='cache',note=CA)
check('C06',[GF,cm('Init|Clear|ClearStats|AfterRequest|HitRate|AvgFreeSpace'),w('Clear|ClearStats|HitRate|AvgFreeSpace')],stop=QS,replay='cache',note=CA)
check('C07',[cm('Init|ClearStats|ClearFiles|Clear'),w('ClearStats|ClearFiles|Clear')],stop=QS,replay='cache',note=CA)
check('C08',[GF,cm('CheckRedirect|SetBandwidth|NumRedirected|RedirectedSize|Bandwidth'),w('NumRedirected|RedirectedSize')],stop=QS,replay='cache',note=CA)
check('C09',[GF,cm('CheckWatermark|Free|Capacity')],stop=QS,replay='cache',note=CA+'Percentages are exact reals.')
check('C10',[cm('AfterRequest|BeforeRequest|Init'),r'files\.\(\*?Manager\)\.(Dirty|Purge|GetOrCreate|Init|Get)',r'files\.\(\*Stats\)\.(DiffLastUpdate|UpdateStats)'],stop=QS,replay='cache',note=CA)
check('C11',[r'cache\.GetFile@InfiniteCache',cm('.*','InfiniteCache'),cm('Size|GetMaxSize'),w('Size|GetMaxSize')],stop=QS,replay='cache',note=CA)
check('C12',[r'cache\.GetFile@WeightFun',cm('.*','WeightFun'),cm('Clear|ClearFiles|AfterRequest','SimpleCache'),r'files\..*Weight.*',r'files\.\(\*Manager\)\.(Purge|Clear|Init)',r'functions\..*'],stop=QS,replay='cache',note=CA+'Powers and exponentials are uninterpreted functions; the weight total is a sum of reals.')
check('C13',[r'cache\.GetFile@(LRUDatasetVerifier|RandomCache)',cm('.*','(LRUDatasetVerifier|RandomCache)')],stop=QS,replay='cache',note=CA+'The random generator is an arbitrary source; decoding of the dataset file is trusted to produce the list in it.')
check('C15',[GF,cm('BeforeRequest|AfterRequest'),r'files\.\(\*Stats\)\..*',r'files\.\(\*?Manager\)\.(GetOrCreate|Get)'],stop=QS,replay='cache',note=CA)
check('C16',[GF,cm('Check|Free|CheckWatermark|UpdatePolicy|GetTotDeletedFileMiss'),w('GetTotDeletedFileMiss'),r'files\.\(\*Manager\)\..*DeletedFileMiss'],stop=QS,replay='cache',note=CA)
check('C14',QU+[r'cache\.(Create|GetCacheSize)',r'cache\.InitInstance@.*',cm('Init')],stop=[r'queue\.\(.*\.(insert|update|remove|removeWorst|getWorstFilesUp2Size|getFromWorst|getQueue|findIndex)$'],replay='cache',note=CA+'The learning cache is initialised without an eviction agent; the neural-network cache is covered at creation (kind and capacity) only. Initialisation of the restricted cache assumes its dataset file decodes.')

QL='Reals stand for float64, integers are unbounded, strings are compared by identity of their content. Assumes a feature map as Populate builds it: every feature bucketed, of a known type, and not empty; of Populate itself the weights it leaves are verified, not which features the JSON names (reflection). Zap logging and the random source are external and assumed not to touch the repository\'s memory. '
check('F01',[r'featuremap\.Obj\.(Size|Value|Index)',r'qlearn\.QTable\.Features2Idxs'],replay='qlearn',note=QL)
check('F02',[r'featuremap\.\(\*FeatureManager\)\.(makeFeatureIdxWeights|makeFileFeatureIdxWeights|Populate)',r'featuremap\.Parse',r'qlearn\.\(\*QTable\)\.Init',r'qlearn\.QTable\.FeatureIdxs2StateIdx'],lemmas=['numberRange','numberInj'],replay='qlearn',note=QL+'Mixed-radix theory is proved as lemmas by induction; that the table building terminates is not proved.')
check('R01',[r'qlearn\.\(\*Agent\)\.(UpdateTable|getArgMax|Init)',r'qlearn\.Agent\.Get(ActionValue|BestActionValue)',r'qlearn\.\(\*QTable\)\.(Init|ResetActions)'],replay='qlearn',note=QL)
check('R02',[r'qlearn\.\(\*Agent\)\.(getArgMax|Init)',r'qlearn\.Agent\.Get(BestAction|BestActionValue|ActionValue)',r'qlearn\.\(\*QTable\)\.(Init|ResetActions)'],replay='qlearn',note=QL)
check('R03',[r'qlearn\.\(\*Agent\)\.(UpdateEpsilon|UnleashEpsilon|Init|ResetParams)',r'qlearn\.Agent\.(GetCoverage|GetRandomFloat)'],replay='qlearn',note=QL+'math.Exp is an uninterpreted function assumed positive, monotone and 1 at 0; that UnleashEpsilon terminates is not proved.')
check('R04',[r'qlearn\.\(\*Agent\)\.(SaveMemory|SaveMemoryWithNoLimits|GetMemories|Remember|DeleteMemory|ResetMemories|Init)'],replay='qlearn',note=QL+'The histories of different keys are required and shown to stay in separate arrays.')

SIM='Simulate is verified in a mode where memory other than its own counters is arbitrary and every cache call returns arbitrary results, so nothing about the cache is assumed; freedom from crashes is not part of it. Number parsing (strconv) is uninterpreted, the csv, gzip and os packages are external and return anything. '
check('S01',[r'cache\.Simulate$',r'cache\.recordGenerator\$go',r'cache\.\w+\.Check$'],replay='simulation',note=SIM+'The periodic progress messages are not specified.')
check('S02',[r'cache\.\w+\.Check$'],replay='simulation',note='All six filters, for every record. The meaning of the numeric codes is the table the repository documents.')
check('S03',[r'cache\.(getHeaderIndexes|OpenSimFile|init)$',r'cache\.recordGenerator\$go'],replay='simulation',note=SIM+'Assumes that no cell of a header holds a comma and that a header names no column twice.')
check('S04',[r'cache\.Simulate$'],replay='simulation',note=SIM+'Times are integers of nanoseconds. The contents of the rows are not specified.')
check('S05',[r'cache\.OpenSimFolder(\$\w+)?$'],replay='simulation',note='The goroutine is verified as a function on its own, each receive returning an arbitrary record; sort.Slice is trusted to sort by the comparison function, which is verified; os and path are external.')
check('R05',[r'cache\.\(?\*?CategoryManager\)?\..*'],lemmas=['lsumCong','lsumSame','lsumStore','lsumDel'],replay='category',note='Sums are over reals. Assumes one record object per file name (as the statistics table keeps) and file features of the types their values have. The states handed to the agent (GetStateFromCategories) are not specified.')
check('R06',[r'cache\.(GetFile|InitInstance|ClearStats)@AIRL',r'cache\.\(\*AIRL\)\.(Init|BeforeRequest|UpdatePolicy|AfterRequest|CheckWatermark|Free|ClearStats)'],stop=QS,replay='cache',note=CA+'What the agent decides is read off its counter of stores. The agent itself is verified here only for what it may write.')
check('O01',[r'cache\.\(?\*?SimCache\)?\..*'],area='qcache',replay='qcache',note='Sums are over reals. Assumes that a file keeps its size, that sizes are positive and values below 1e308. Each pass of the eviction loop is shown to remove a held file; that it terminates follows but is not itself proved.')
