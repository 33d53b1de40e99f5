"""What decides each property: design checks (mc) and conformance runs (conf)."""


def MC(module, thorough=True, **kw):
    return dict(module=module, quick=f'{module}_quick.cfg', thorough=f'{module}_thorough.cfg' if thorough else f'{module}_quick.cfg', **kw)


PROPS = {
    'C01': dict(mc=[MC('MC_MemArena')], conf=[dict(harness='arena.cc', trace='MemArenaTrace', mode='alloc', episodes=(800, 6400))]),
    'C02': dict(mc=[MC('MC_MemArena')], conf=[dict(harness='arena.cc', trace='MemArenaTrace', mode='life', episodes=(800, 6400))]),
    'C03': dict(mc=[MC('MC_FixedArena')], conf=[dict(harness='fixed.cc', trace='FixedArenaTrace', episodes=(1000, 8000))]),
    'C04': dict(mc=[MC('MC_DiscreteRange')], conf=[dict(harness='range.cc', trace='DiscreteRangeTrace', episodes=(800, 6400))]),
    'C05': dict(mc=[MC('MC_DiscreteSpace')], conf=[dict(harness='space.cc', trace='DiscreteSpaceTrace', episodes=(400, 3200))]),
    'C06': dict(mc=[MC('MC_IPSpace')], conf=[dict(harness='ipspace.cc', trace='IPSpaceTrace', mode='space', episodes=(600, 4800))]),
    'C07': dict(mc=[MC('MC_Limbs')], conf=[dict(harness='ip.cc', trace='IPTrace', mode='nets', episodes=(120, 1200))]),
    'C09': dict(mc=[MC('MC_IPText')], conf=[dict(harness='ip.cc', trace='IPTrace', mode='text', episodes=(500, 4000))]),
    'C10': dict(mc=[MC('MC_Limbs')], conf=[dict(harness='ip.cc', trace='IPTrace', mode='addr', episodes=(1500, 12000))]),
    'C11': dict(mc=[MC('MC_Limbs'), MC('MC_IPText')], conf=[dict(harness='ip.cc', trace='IPTrace', mode='range', episodes=(500, 4000))]),
    'C12': dict(mc=[MC('MC_IPText')], conf=[dict(harness='ip.cc', trace='IPTrace', mode='srv', episodes=(600, 4800))]),
    'C08': dict(mc=[MC('MC_IPSpace')], conf=[dict(harness='ipspace.cc', trace='IPSpaceTrace', mode='set', episodes=(1200, 9600))]),
    'C13': dict(mc=[MC('MC_TextView')], conf=[dict(harness='text.cc', trace='TextTrace', mode='views', episodes=(2000, 16000))]),
    'C14': dict(mc=[MC('MC_Digits')], conf=[dict(harness='text.cc', trace='TextTrace', mode='numbers', episodes=(1500, 12000))]),
    'C15': dict(mc=[MC('MC_Compare')], conf=[dict(harness='text.cc', trace='TextTrace', mode='compare', episodes=(1500, 12000))]),
    'C16': dict(mc=[MC('MC_BufferWriter')], conf=[dict(harness='writer.cc', trace='WriterTrace', mode='fixed', episodes=(3000, 24000))]),
    'C17': dict(mc=[MC('MC_BufferWriter'), MC('MC_ArenaWriter'), MC('MC_MemArena')], conf=[dict(harness='writer.cc', trace='WriterTrace', mode='arena', episodes=(300, 3000))]),
    'C18': dict(mc=[MC('MC_BWF')], conf=[dict(harness='fmt.cc', trace='FormatTrace', mode='parse', episodes=(3200, 20000))]),
    'C19': dict(mc=[MC('MC_BWF')], conf=[dict(harness='fmt.cc', trace='FormatTrace', mode='values', episodes=(3200, 20000))]),
    'C23': dict(mc=[MC('MC_IntrusiveDList')], conf=[dict(harness='dlist.cc', trace='IntrusiveDListTrace', episodes=(1000, 8000))]),
    'C24': dict(mc=[MC('MC_IntrusiveHashMap')], conf=[dict(harness='hmap.cc', trace='IntrusiveHashMapTrace', episodes=(1000, 8000))]),
    'C22': dict(mc=[MC('MC_Lexicon')], conf=[dict(harness='lexicon.cc', trace='LexiconTrace', episodes=(1000, 8000))]),
    'C27': dict(mc=[MC('MC_Scalar')], conf=[dict(harness='scalar.cc', trace='ScalarTrace', episodes=(2000, 16000))]),
    'C25': dict(mc=[MC('MC_MemSpan')], conf=[dict(harness='memspan.cc', trace='MemSpanTrace', episodes=(3000, 24000))]),
    'C26': dict(mc=[MC('MC_Vectray')], conf=[dict(harness='vectray.cc', trace='VectrayTrace', episodes=(2500, 20000))]),
    'C21': dict(mc=[MC('MC_Errata')], conf=[dict(harness='errata.cc', trace='ErrataTrace', episodes=(1200, 9600))]),
    'C28': dict(mc=[MC('MC_Path')], conf=[dict(harness='path.cc', trace='PathTrace', episodes=(2500, 20000))]),
    'C29': dict(mc=[MC('MC_FileSystem')], conf=[dict(harness='file.cc', trace='FileSystemTrace', episodes=(1600, 6000))]),
    'C20': dict(mc=[MC('MC_RBTree')], conf=[dict(harness='misc.cc', trace='RBTreeTrace', mode='tree', episodes=(400, 3200))]),
    'C30': dict(mc=[MC('MC_Scope')], conf=[dict(harness='misc.cc', trace='ScopeTrace', mode='let', episodes=(1000, 8000))]),
    'C31': dict(mc=[MC('MC_FNV')], conf=[dict(harness='misc.cc', trace='FNVTrace', mode='fnv', episodes=(300, 2400))]),
}
