from concrete.c05 import *

CASES = [exporting('export_xml_file_no_di', 'contracts.xml_export:export_no_di')]
