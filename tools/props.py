#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
Q="SmartCache/sim/cache/queue/"; C="SmartCache/sim/cache/"; A="SmartCache/sim/cache/ai/"
P=[]
def p(id,title,stmt,over,qt,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
H=["histories","inputs"]
p("Q01","Replacement queues hold exactly the files inserted and not yet removed",
 "After any sequence of successful insertions, updates and removals, each ordered replacement queue (LRU, LFU, biggest-size, smallest-size, weight) and the unordered one reports a file as present exactly when it was inserted and not removed since. Its count is the number of present files, looking a present file up returns the very statistics record that was inserted, and the eviction listing contains each present file's record exactly once and nothing else.",
 H,"for every history of insert/update/remove/remove-worst calls on every queue kind","the queue tests run three or four fixed operations per queue and look at the result once",
 [Q+"lru.go",Q+"lfu.go",Q+"genericF.go",Q+"none.go"],[("membership maps, order slice and index caches",Q+"lru.go"),("value buckets",Q+"lfu.go"),("float buckets",Q+"genericF.go")])
p("Q02","LRU evicts strictly in order of last use",
 "The least-recently-used queue lists its files for eviction in the order of their last insertion or update, the longest-unused first. Inserting or updating a file moves it to the most recent end and changes the relative order of no other files, and removing files (singly, in any order, or from the worst end) preserves the relative order of those that stay. Every hit on a cache with this queue is such an update, so that its files are evicted in the order of their last requests.",
 H,"for every history of operations on the LRU queue","tests check a handful of fixed orders; stale cached positions only show after particular interleavings of removals and updates",
 [Q+"lru.go","SmartCache/sim/cache/simpleCache.go"],[("order slice with lazily corrected index map",Q+"lru.go"),("hits passed on to the queue","SmartCache/sim/cache/simpleCache.go")])
p("Q03","LFU, size and weight queues evict by their key, oldest first among equals",
 "The least-frequently-used queue lists files for eviction by ascending request count, the smallest-size queue by ascending size, the biggest-size queue by descending size and the weight queue by ascending weight, each value taken when the file was last inserted or updated. Files with equal values keep the order in which they were inserted or updated, and no operation reorders the files it does not touch. Every hit on a cache with such a queue updates the file in it.",
 H,"for every history of operations and every assignment of counts, sizes and weights","tests use few files with distinct values and never mix removals, updates and ties",
 [Q+"lfu.go",Q+"genericF.go"],[("sorted values located by binary search plus one bucket per value",Q+"lfu.go"),("same with pluggable ordering",Q+"genericF.go")])
p("Q04","Victim selection returns the shortest worst-first run that reaches the target",
 "Asked for eviction candidates worth at least a positive amount, every ordered queue returns the shortest initial run of its eviction order whose total size reaches that amount, or all its files when their total is smaller, and it changes nothing. The unordered queue returns distinct present files under the same total-size rule, with none selected after the target is reached.",
 H,"for every queue content and every positive target","tests compare lengths for one or two targets",
 [Q+"lru.go",Q+"lfu.go",Q+"genericF.go",Q+"none.go"],[("victim selection",Q+"lru.go")])
p("Q05","Queues refuse invalid operations without losing or duplicating entries",
 "Inserting a file name already present, updating a file that is absent, and updating with a record other than the stored one are each refused with an error by every queue, and the refusal leaves the contents and the eviction order as they were. Removing an absent file from an ordered queue, and removing as worst a file that is not the current worst, are refused with an error as well.",
 H,"for every queue content and every invalid request","no test exercises a refused operation on a non-trivial queue",
 [Q+"lru.go",Q+"lfu.go",Q+"genericF.go",Q+"none.go"],[("error returns",Q+"lru.go")])
p("Q06","The best-first listing is the exact reverse of the eviction listing",
 "For every ordered queue, listing its files best first succeeds in every state and yields the eviction listing in reverse: the same records, each once. Listing in either direction changes neither contents nor order.",
 H,"for every queue content","no test lists an LFU or size queue best-first",
 [Q+"lru.go",Q+"lfu.go",Q+"genericF.go"],[("reverse iteration",Q+"lfu.go")])
p("C01","Reported occupancy is the sum of the resident files' sizes",
 "When each file is always requested with the same non-negative size, the used space a cache reports after every request, forced clean-up and watermark action equals the total size of the files it then holds. Admitting a file adds exactly its size, evicting subtracts exactly the evicted sizes, and a hit changes nothing.",
 H,"for every request history with stable sizes, every capacity and every eviction policy","the only end-to-end cache test does not run at this commit, so no test looks at occupancy",
 [C+"simpleCache.go",C+"randomCache.go",C+"weightFun.go",C+"lruDatasetVerifier.go",C+"infiniteCache.go",C+"base.go"],[("size field updated at admission and eviction",C+"simpleCache.go")])
p("C02","A bounded cache never exceeds its capacity",
 "With files that keep their size, after every request the used space of a bounded cache (plain, weighted, random, dataset-restricted) is at most its configured capacity, provided it was within capacity before. A file larger than the capacity is never admitted, and eviction never makes the used space negative.",
 H,"for every request history, capacity and policy, including files larger than the capacity","not covered by any passing test",
 [C+"simpleCache.go",C+"randomCache.go",C+"weightFun.go",C+"lruDatasetVerifier.go"],[("two size comparisons around the forced free",C+"simpleCache.go")])
p("C03","A missed file that can fit is admitted and held; a hit never changes holdings",
 "In the plain cache, a requested file that was absent and is no larger than the capacity is reported as added and is held immediately after it is admitted, whatever had to be evicted for it (a following watermark drain may evict it again). A file too large for the capacity is reported as not added and is not held, and a request for a held file adds and evicts nothing.",
 H,"for every request history, capacity and policy","not covered by any passing test",
 [C+"simpleCache.go",C+"base.go"],[("admission",C+"simpleCache.go"),("request pipeline",C+"base.go")])
p("C04","Eviction removes only the worst files, and only as many as the request needs",
 "On a miss that does not fit in the free space, the files evicted are exactly the shortest worst-first run of the eviction order worth at least the requested size (all files if their total is smaller); no other file leaves, and the files that stay keep their order. A file admitted or hit takes the place in that order that the policy gives it. On a miss that fits, nothing is evicted. The amount reported as freed, the drop in used space and the growth of the deleted-data total are equal, and the deleted-file count grows by the number of evicted files.",
 H,"for every request history, capacity and policy","not covered by any passing test",
 [C+"simpleCache.go",C+"base.go"],[("forced free",C+"simpleCache.go")])
p("C05","Request statistics are conserved",
 "Every served request counts as exactly one hit, when the file was held as the request arrived, or else as exactly one miss; requests equal hits plus misses, data read equals data read on hits plus data read on misses, and each grows by the size of the request. Data written and the added-file count grow exactly when the request was admitted.",
 H,"for every request history","not covered by any passing test",
 [C+"simpleCache.go",C+"base.go"],[("statistics update after a request",C+"simpleCache.go")])
p("C06","Hit rate is the percentage of served requests that hit",
 "The hit rate is one hundred times hits divided by hits plus misses, lies between 0 and 100, and is 0 when nothing has been served yet. The average free space is the mean over the served requests of capacity minus used space right after each was handled.",
 H,"for every request history including the empty one","not covered by any passing test",
 [C+"simpleCache.go"],[("derived statistics",C+"simpleCache.go")])
p("C07","Clearing statistics keeps the files; clearing files empties the cache",
 "Resetting the statistics sets every request, data, added, deleted, redirected and efficiency counter to zero and changes neither the held files nor the used space nor the capacity. Clearing the files leaves no file held and zero used space; a full clear does both.",
 ["histories"],"for every state in which a reset is issued","not covered by any passing test",
 [C+"simpleCache.go"],[("reset operations",C+"simpleCache.go")])
p("C08","Only misses are redirected, over the bandwidth limit, without side effects",
 "With redirection enabled, a request for an absent file is redirected exactly when the data read on misses has reached 95% of the configured bandwidth; a held file is never redirected, and with redirection disabled nothing is. A redirected request is counted once with its size, is reported as redirected and not added, and changes neither the held files nor the used space nor any other request statistic.",
 H,"for every request history and bandwidth setting","not covered by any passing test",
 [C+"simpleCache.go",C+"base.go"],[("redirect decision",C+"simpleCache.go"),("request pipeline",C+"base.go")])
p("C09","Crossing the high watermark drains the cache to the low watermark",
 "With watermarks enabled, a request that leaves the cache at or above the high watermark triggers an eviction of the shortest worst-first run of files that brings the used space down to at most the low watermark; below the high watermark, or with watermarks disabled, nothing is evicted.",
 H,"for every occupancy, capacity and pair of watermarks with low below high","not covered by any passing test",
 [C+"simpleCache.go"],[("watermark check",C+"simpleCache.go")])
p("C10","Statistics of held files survive cleaning, and only stale ones are dropped",
 "Cleaning the per-file statistics removes exactly the records of files that are not held and were last updated at least the configured number of days before the latest request; every held file keeps the very record the cache holds. Cleaning runs exactly when the configured interval has elapsed since the previous one.",
 H,"for every set of records, held files and request times","no test cleans statistics",
 [C+"files/stats.go",C+"simpleCache.go"],[("purge",C+"files/stats.go")])
p("C11","The infinite cache admits everything and never evicts",
 "In the infinite cache every missed file is admitted, no request ever removes a held file, and the used space and the reported capacity both grow by exactly the size of each newly admitted file.",
 H,"for every request history","not covered by any passing test",
 [C+"infiniteCache.go"],[("admission without limit",C+"infiniteCache.go")])
p("C12","The weighted cache admits a missed file only if its weight is not above average",
 "The weighted cache admits a missed file exactly when its weight, freshly computed from its request count, size and mean request age (the summed ages of the requests remembered, in minutes, over their 32 places) with the configured function and parameters, is at most the mean weight over all files with statistics and the file can fit. The running weight total always equals the sum of the recorded weights of all files with statistics.",
 H,"for every request history, weight function and parameters","not covered by any passing test",
 [C+"weightFun.go",C+"files/stats.go",C+"functions/functions.go"],[("weight bookkeeping",C+"files/stats.go"),("admission",C+"weightFun.go")])
p("C13","The dataset-restricted cache only ever holds files of its dataset",
 "The dataset-restricted cache admits a missed file exactly when it belongs to the configured dataset and can fit, so that it never comes to hold a file outside it, and it serves requests in every state after initialisation. The random cache admits only missed files that can fit, and holds no file that was not requested.",
 H,"for every dataset, capacity and request history","no test builds this cache; it crashed on its first admission",
 [C+"lruDatasetVerifier.go",C+"randomCache.go"],[("dataset filter",C+"lruDatasetVerifier.go")])
p("C14","Each cache type name selects the policy it promises",
 "Creating a cache by type name yields a cache of that kind with the requested capacity, and initialising it by that name selects the promised eviction policy: least-recently-used, least-frequently-used, biggest-size, smallest-size, or no order. Capacities given in M, G, T or P (either case) are converted to megabytes by powers of 1024.",
 ["configurations"],"for every type name, capacity and unit","no test goes through the by-name construction",
 [C+"simulation.go",C+"simpleCache.go"],[("factory and initialisation",C+"simulation.go")])
p("C15","Per-file request history is exact",
 "In every cache but the infinite one, which keeps no request history, each file's recorded request count is the number of served requests, split exactly into hits and misses, with the last size, first-seen time and last request time recorded. The 32 most recent request times are kept, the oldest being overwritten first, and the gap since the previous request is the difference of the request sequence numbers.",
 H,"for every request history of a file","one test checks the creation of statistics only",
 [C+"files/stats.go"],[("per-file statistics",C+"files/stats.go")])
p("C16","Misses on evicted files are counted exactly",
 "The reported number of misses on evicted files equals the number of missed requests for files that a forced clean-up had evicted, counted until the next clean-up starts a new set; reporting returns the total since the last report and starts again from zero.",
 H,"for every interleaving of evictions, misses and reports","no test reads this statistic",
 [C+"files/stats.go",C+"simpleCache.go"],[("deleted-file miss counters",C+"files/stats.go")])
p("C17","A saved cache restores the same files, sizes and statistics",
 "Loading a dump of a cache into a fresh cache of the same configuration restores the same held files in the same eviction order with the same per-file statistics and the same used space, and the restored cache serves subsequent hits and evictions normally.",
 H,"for every cache content that can be dumped","no test loads a dump into a cache and uses it; the restored cache crashed on its first hit",
 [C+"simpleCache.go",C+"weightFun.go",C+"aiRL.go"],[("dump and load",C+"simpleCache.go")])
p("F01","A feature value falls in its first fitting bucket",
 "For numeric features given by buckets the index of a value is the first bucket whose upper bound is at least the value, for textual and boolean features it is the first entry equal to it, and it is negative exactly when there is none. The size of a feature is its number of buckets and the value at an index is that bucket's bound.",
 ["inputs","configurations"],"for every feature definition and value","the feature-map tests need a file and do not pass; they sample a few values",
 [A+"featuremap/featuremap.go"],[("bucket search",A+"featuremap/featuremap.go")])
p("F02","State numbering is a bijection between feature combinations and table rows",
 "With at least one bucket for every feature, the state number computed from one bucket index per feature is the mixed-radix value of the indexes with the last feature varying fastest, so that different combinations get different numbers and all lie between 0 and the number of combinations minus one. The decision table has exactly one row per combination and the row stored at a combination's number is that combination.",
 ["inputs","configurations"],"for every list of feature sizes and every combination","one test checks a single fixed table",
 [A+"featuremap/featuremap.go",A+"qlearn/qlearn.go"],[("index weights",A+"featuremap/featuremap.go"),("state enumeration and numbering",A+"qlearn/qlearn.go")])
p("R01","A learning step changes one action value by the Q-learning rule",
 "A table update replaces the value of the given action in the given state by old + rate * (reward + discount * best next-state value - old), adds the reward to the agent's accumulated value, and changes no other table entry; an action the agent does not have is refused.",
 H,"for every table content, state pair, action and reward","no passing test performs an update",
 [A+"qlearn/qlearn.go"],[("update rule",A+"qlearn/qlearn.go")])
p("R02","The greedy choice always has the maximal value",
 "The best action reported for a state is one of the agent's actions whose value no other action of that state exceeds, and the best value reported is that maximum, whatever the random choice among equals; asking changes nothing in the table.",
 ["inputs"],"for every table content and random outcome","no passing test asks for a best action",
 [A+"qlearn/qlearn.go"],[("arg-max with ties",A+"qlearn/qlearn.go")])
p("R03","The exploration rate decays monotonically and stays within its bounds",
 "With a non-negative decay rate, each decay step leaves the exploration rate between its minimum and its maximum and never above the value given by the previous step, each effective step advances the step counter by one, and a rate already at its minimum does not change. Coverage figures always lie between 0 and 100 percent.",
 H,"for every decay rate and number of steps","no passing test decays the rate",
 [A+"qlearn/qlearn.go"],[("epsilon update",A+"qlearn/qlearn.go"),("coverage",A+"qlearn/qlearn.go")])
p("R04","Bounded memories keep the 32 most recent choices of a key, in order",
 "Saving a choice in bounded memory appends it to its key's history and keeps only the 32 most recent, oldest first, leaving every other key untouched; saving without limit keeps all. Remembering a key returns its whole history in order and forgets it, and reports an unknown key as such.",
 H,"for every history of save and remember calls","no passing test uses the memories",
 [A+"qlearn/qlearn.go"],[("choice memories",A+"qlearn/qlearn.go")])
p("R05","Every tracked file is in exactly one category and category sizes add up",
 "With one record per file name, adding or updating files by category keeps each tracked file in exactly one category's list, once, the category it was last assigned to; each category's recorded size is the sum of the sizes its files had when they were assigned. Removing a file takes it out of its category only, and a category that becomes empty disappears.",
 H,"for every history of category assignments and removals","no test uses the category manager",
 [C+"aiRLCatStateManager.go"],[("category maps",C+"aiRLCatStateManager.go")])
p("R06","The learning cache without an eviction agent obeys capacity and occupancy",
 "When only the admission agent learns, a request the agent chooses not to store changes neither the held files nor the used space, one it stores is admitted exactly when it can fit after evicting worst files, and in every case the used space equals the sum of the held sizes and stays within capacity.",
 H,"for every request history, feature map and random outcome","no passing test runs this cache",
 [C+"aiRL.go"],[("admission by agent",C+"aiRL.go")])
p("S01","Every simulated record is classified exactly once",
 "Every record read during a simulation is counted once: the total equals the records skipped before the window, plus those filtered out, plus those with an invalid CPU efficiency, plus those handed to the cache, and the reported redirected records and size are those of the requests the cache redirected. A record inside the window is handed to the cache exactly when its job succeeded with exit code zero, every configured filter accepts it and its CPU efficiency is a number between 0 and 100; the request carries the file, size in megabytes, protocol, efficiency, day, site, user and file type of the record.",
 ["inputs","configurations"],"for every record stream, window and filter","no test runs a simulation",
 [C+"simulation.go"],[("record loop",C+"simulation.go")])
p("S02","Record filters accept exactly the records they name",
 "The job-success filter accepts exactly successful jobs with exit code zero, the two data-type filters accept exactly data and simulation records of their region, and the file-type filters accept exactly the mini-AOD records outside their excluded sites.",
 ["inputs"],"for every record","no test calls a filter",
 [C+"simulation.go"],[("filters",C+"simulation.go")])
p("S03","Columns are found by name whatever the header order",
 "When an input file's header is a permutation of the standard columns, the position used for each standard column is the position of that column in the header, and every field of a record read from the file holds the value of its own column.",
 ["inputs"],"for every permutation of the standard header","no test reads a permuted file",
 [C+"simulation.go"],[("header mapping",C+"simulation.go")])
p("S04","The simulation follows its day windows",
 "A new day begins with the first record 23 hours or more after the first record of the current day. Every WindowSize days a window ends; records before window WindowStart are skipped, and the simulation stops, counting and serving nothing more, when window WindowStop begins, otherwise at the end of the records. Whenever a day ends inside the window exactly one row of statistics is written, before the cache statistics are cleared; they are cleared exactly once at the end of every day.",
 ["inputs","configurations"],"for every record stream and window","no test runs a simulation",
 [C+"simulation.go"],[("record loop",C+"simulation.go")])
p("S05","A folder of records is read completely and in name order",
 "Simulating a folder reads every file in it whose name ends in .csv or .gz, in the order of their names, each once, and passes on every record of each file once and in order.",
 ["inputs"],"for every folder","no test reads a folder",
 [C+"simulation.go"],[("OpenSimFolder",C+"simulation.go")])
p("O01","The standalone Q-learning cache respects its capacity",
 "In the standalone Q-learning cache, with files that keep their size, the used space equals the sum of the held files' sizes and never exceeds the capacity; a file that cannot fit is refused, and evictions pick the held file of lowest value.",
 H,"for every request history and capacity","the standalone program has no tests",
 ["qLearning_smartCache/cache/cache.go"],[("insertion loop","qLearning_smartCache/cache/cache.go")])
p("X01","The simulation log records every event in order",
 "With logging enabled, every hit, miss, addition, eviction and redirect appears exactly once in the log file in the order it happened, and terminating the cache flushes all of them.",
 ["schedules","histories"],"for every history and scheduling of the log writer","logging is not tested",
 [C+"simpleCache.go"],[("log channel and writer goroutine",C+"simpleCache.go")])
p("X02","The data converters preserve every record",
 "Converting collected logs between formats keeps every record with every selected field, in order.",
 ["inputs"],"for every input file","the converter tests use small fixed files",
 ["DataManager"],[("converters","DataManager")])
json.dump
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
