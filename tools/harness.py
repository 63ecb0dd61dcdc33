"""Builds one harness by name."""
import build
import props


def exe_for(name):
    h = props.HARNESSES[name]
    link = []
    if h['wraps']:
        link.append('-Wl,' + ','.join('--wrap=' + w for w in h['wraps']))
    link += h.get('link', [])
    return build.build(name, h['src'], config=h.get('config', 'asan'), link=link,
                       extra=h.get('extra', ()), repo_extra=h.get('repo_extra', ()),
                       snapshot=h.get('snapshot', False))
