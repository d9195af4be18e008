import importlib
MODULES = {}
def reg(mod,*ids):
    for i in ids: MODULES[i] = mod
reg('geom','P01','P02','P03','P04','P05','P06','P07')
reg('scan','P08','P12','P13','P14')
reg('asserts','P15')
reg('sinkck','P17','P19')
reg('splitck','P16','P43')
reg('neighck','P44','P51','P52')
reg('followck','P18','P45')
reg('joinck','P46')
reg('nestck','P47')
reg('offck','P25','P48')
reg('resultck','P49')
reg('drawck','P26','P27','P28','P29','P41','P50')
reg('refck','P40')
reg('pyck','P30','P31','P35','P36','P37','P38')
reg('nativeck','P32','P33','P34')
reg('arrck','P53')
reg('failck','P54')
reg('callck','P09','P10','P11')
reg('intck','P39','P68','P69')
reg('setck','P24')
reg('stridck','P23')
reg('treeck','P65')
reg('types','P20','P21','P22')
def find(pid):
    m = importlib.import_module('checks.'+MODULES[pid])
    return m,getattr(m,pid)
