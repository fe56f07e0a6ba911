import subprocess
m={
"count a strategy's internal":"C04","NamingShim forwards":"C05","FixedPool::release subtracts":"C04","SlotPool refuses":"C07","MonotonicAllocationStrategy keeps":"C07",
"SizeLimiter charges":"C07","refused named allocation":"C06","FixedPool and MixedPool constructors":"C06","aligned allocation refuses":"C08","survives its parent refusing":"C23",
"QuickPool coalescing does not recurse":"C23","copy refuses to read":"C09","removeAlias":"C12","makeResource":"C12","reallocate that fails":"C10","accounts for the change":"C10",
"find_pointer_from_name":"C19","TypedAllocator refuses":"C25","FixedMallocPool writes":"C15","MemoryMap::insert of a const":"C14","MemoryMap iterator advances":"C14","postfix increment":"C14",
"relative_fragmentation":"C24","FileMemoryResource refuses a size":"C20","FileMemoryResource closes":"C20","NullMemoryResource reads":"C12","NullMemoryResource reports":"C06",
"json_file_store opens":"C16","json_file_store escapes":"C16","shared memory refuses":"C19","does not hand out an existing smaller":"C19",
"treat judy's unused":"C14","judy_prv and judy_last":"C14","read the record it has deregistered":"C10","OutputBuffer starts":"C17","finalize_io":"C17",
"unknown_pointer_error carries":"C17","empty backtrace":"C17",
"guard the pool of zero-byte":"C13","not valid UTF-8":"C16","unpoison the blocks":"C22",
"reports the size of its allocations":"C20","forgets a mapping":"C20","cannot copy gives back":"C10","never uses a file that already":"C20","is not left behind":"C19",
"sessions in which a reallocate failed":"C26","replay named allocations":"C26","accept memset events":"C26","statistics of untracked":"C26",
"ends in _base":"C26","compiled with -r":"C26","replaydiff reports":"C26","count reallocations in replay":"C26","MixedPool forgets":"C27","advisor or prefetcher whose operation fails":"C33"}
out=[]
for l in subprocess.check_output("git -C /repo log --reverse --oneline --grep ^fix:",shell=True,text=True).splitlines():
    h,_,s=l.partition(" ")
    s=s.replace("fix: ","")
    p=[v for k,v in m.items() if k in s]
    assert len(p)==1,(l,p)
    out.append("fixed: property=%s %s %s"%(p[0],h,s))
print("# known: property=<id> key=<oracle key> <what fails>     (suppresses exactly that oracle key)\n# fixed: property=<id> <commit> <what the commit corrects>   (suppresses nothing)")
print("\n".join(out))
