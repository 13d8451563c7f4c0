"""writes ../known_findings.txt: the repaired defects per property (known: lines would suppress, there are none)"""
import subprocess, os
MAP = """e6d6c37 C32|f5bee70 C05|3be453c C06|9a2a852 C08|583f85e C08|5217125 C21|9dbeaa1 C25|9d42690 C25|bf08d67 C25|24152fe C26|dcfcec5 C26|fcc3ddb C26|a77aaf3 C24|ee7b1ac C25|2fa332e C27|565ab6d C27|dbc208b C27|9669b7c C06|d95a835 C06|3c921a8 C06|9299083 C04|c692b46 C04|459d34f C04|20fc0e3 C03|95b0b67 C03|85e3418 C03|f88993e C02|73903fd C01|7742f5d C01|9db32fa C28|aae10ac C28|0208c94 C20|1e2b182 C20|0c52fbd C29|8294221 C29|7c27e2b C16|b309702 C16|b231ea5 C14|fcf289b C15|1a25f6c C15|959da22 C15|e8208a8 C29|d98d84b C17|e9b3318 C17|5d62ce8 C29|be12a5d C19|aa19d4b C19|37571a4 C19|4aedd5d C19|a9aa098 C05|c45e3a8 C05|fda6ae4 C05|e2da077 C07|81cf85a C08|fa0202b C08|a049b9d C07|f593104 C07|c948424 C13|f50d4e6 C13|edf47a3 C13|1a128e6 C13|839809e C13|9789fee C09|846b974 C10|b3491ff C11|dc9a32d C11|6fa8c34 C11|48bd8d5 C13|830ce27 C12|29036e4 C12|e61df2d C13|c3c48b4 C11|3f8882d C11|ba3013e C11|31fe218 C27|6f078aa C13|ff7e45a C13|05f860a C13 | 642ef7b C27"""
m = dict(x.split() for x in MAP.split('|'))
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'cbbab95..HEAD'], capture_output=True, text=True).stdout
with open(os.path.join(top, 'known_findings.txt'), 'w') as f:
    f.write('# Genuine defects of the pinned tree that were repaired in /repo.  A fixed entry suppresses nothing.\n# Entries that suppress would read: known: property=<id> rule=<rule> fn=<function> | <what fails>\n')
    for l in log.splitlines():
        h, s = l.split(' ', 1)
        if s.startswith('fix: '): f.write('fixed: property=%s %s %s\n' % (m[h], h, s[5:]))
