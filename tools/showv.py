import json,sys
import os; v=json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),f'evidence/replay/{sys.argv[1]}.json')))
w=int(sys.argv[3]) if len(sys.argv)>3 else 300
seen=set()
for x in v[:int(sys.argv[2]) if len(sys.argv)>2 else 10]:
    print('-',x['key'][:150],'::',x['message'][-w:].replace('\n',' | '))
print(len(v))
