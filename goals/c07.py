from goals.c05 import *

GOALS = [node_goal(k, 'C07') for k in KINDS] + [simple(*x, prop='C07') for x in ELEMENTS] + [
    api('export_xml_file_no_di', 'export_no_di', 'C07'), indent_goal('C07')]
