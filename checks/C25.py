import vt, lookupcheck as L, bookcheck as K
T = {'labels': ("c:c v:v+ v:a+ v:B+ v:b v:L+ v:e+ v:f+ v:g+ v:d v:o+ p", 3, 5), 'numbers': ("h:+ c:c c:C v:v v:V+ v:k v:a+ v:B+ v:b+ v:g v:d+ v:l+ p", 4, 6)}
vt.main(lambda: L.check('C25', ['versify', 'numchapters', 'numverses'], T, K.KALL, asks=(8, 10)))
