import vt, lookupcheck as L, bookcheck as K
ALPHA = K.KALL.replace('v:k+ ', '')
T = {'labels': ("c:c v:v+ v:a+ v:B+ v:b v:L+ v:e+ v:f+ v:g+ v:d+ v:o+ p", 4, 5), 'verses': ("h:+ c:c c:C v:v+ v:V+ v:a+ v:B+ v:b+ v:g v:l+ p s:+", 4, 5), 'context': ("c:c v:v+ p q:+ li1:+ ms1:+ s1:+ ip:+", 4, 5)}
vt.main(lambda: L.check('C05', ['strict', 'loose', 'complete', 'plainstrict', 'plainloose', 'text', 'textc'], T, ALPHA))
