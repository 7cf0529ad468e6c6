"""Skipping or stopping an upload affects only what it should."""
from lib import *
import handlers as HD


def gen(rng, tier):
    spec = G.gen_request(rng, 'multi', rng.pick([20, 300, 3000] if tier == 'quick' else [20, 300, 3000, 30000]),
                         {'mix': [(6, 'file'), (3, 'field')], 'parts': rng.weighted([(1, 1), (3, 2), (3, 4), (2, 6)]), 'plainfn': True})
    for i, p in enumerate(spec['parts']):
        if p['k'] == 'file':
            p['fn'] = 'u%d.%s' % (i, rng.pick(['txt', 'bin']))
            p['star'] = False
    G.fix_boundary(spec)
    b = G.build(spec)
    files = len([p for p in spec['parts'] if p['k'] == 'file'])
    cfg = {'mhs': 16, 'chunk': G.gen_chunk(rng, b), 'lineup': rng.weighted([(4, 'default'), (3, 'temp'), (2, 'memtmp')])}
    cfg['fmax'] = rng.weighted([(2, 0), (2, 31457280), (2, rng.below(len(b.body) + 1))])
    script = []
    kind = rng.weighted([(4, 'skip'), (3, 'stop'), (2, 'reset')])
    for _ in range(rng.between(1, 3)):
        script.append({'h': 0, 'call': rng.weighted([(3, 'new'), (5, 'chunk')]), 'file': rng.below(files + 1), 'chunk': rng.weighted([(3, 0), (2, 1), (2, rng.below(8))]),
                       'do': 'skip'})
    if kind != 'skip':
        script[-1]['do'] = kind
        if rng.chance(.2):
            script[-1]['call'] = 'complete'
    st = G.gen_cuts(rng, b)
    return {'spec': spec, 'cfg': cfg, 'stream': st, 'script': script, 'last': rng.chance(.35), 'size': rng.pick([None, None, 1, 7, 64])}


def run(plan):
    spec, cfg = plan['spec'], plan['cfg']
    if spec['kind'] != 'multi' or cfg.get('lineup') == 'mem':
        raise Invalid('kind')
    for a in plan['script']:
        if a['call'] not in ('new', 'chunk', 'complete') or a['do'] not in ('skip', 'stop', 'reset') or a['call'] == 'complete' and a['do'] == 'skip':
            raise Invalid('script')
    b = G.build(spec)
    names = [p['value']['name'] for p in b.parts if p['k'] == 'file']
    if len(set(names)) != len(names):
        raise Invalid('names')
    with Sim() as sim:
        s = make_settings(sim, cfg_of(spec, cfg))
        HD.install(s, cfg, plan['script'], plan.get('last'), sim)
        r, st = new_request(sim, b, plan['stream'], s)
        HD.S.stream = st
        HD.S.behave = [{'chunk': plan.get('size')}] if plan.get('size') else []
        _, e = attempt(sim, r.parse)
        log = HD.S.log
        skipped, stopped = [], None
        cur = None
        for i, ev in enumerate(log):
            if ev[1] == 'new':
                cur = plain(ev[3])
            if ev[1] == 'raise':
                if ev[2] == 'skip':
                    skipped.append(cur)
                else:
                    stopped = (cur, ev[2], i)
        what = '%s%s' % ('skip of %s' % ', '.join(skipped) if skipped else '', ' %s at %s' % (stopped[1], stopped[0]) if stopped else '')
        if e is not None:
            fail('refused', '%s: parse() raised %s', what, exc_name(e))
        # what is to be there
        post, files = {}, {}
        for p in b.parts:
            if p['k'] == 'field':
                post.setdefault(p['name'], []).append(p['value'])
            elif p['k'] == 'file':
                n = p['value']['name']
                if stopped and stopped[0] == n:
                    break
                if n in skipped:
                    continue
                files.setdefault(p['name'], []).append(dict(p['value'], type=True))
        got, e = attempt(sim, snap_files, r.FILES)
        if e is not None:
            fail('file unreadable', '%s: reading the files raised %s', what, exc_name(e))
        must('wrong files', got, files, '%s: FILES' % what)
        must('wrong fields', snap_post(r.POST), post, '%s: POST' % what)
        ends = len([x for x in log if x[1] == 'end'])
        if ends != 1:
            fail('no end notice', '%s: upload_complete() was called %d times', what, ends)
        if stopped:
            later = [x for x in log[stopped[2] + 1:] if x[1] != 'end']
            if later:
                fail('called after the stop', '%s: the handler was called again: %s', what, later[0][1])
            if stopped[1] == 'reset':
                if st.pulls != HD.S.pulls:
                    fail('read after the reset', '%s: the input was read %d times more', what, st.pulls - HD.S.pulls)
            elif st.pos != len(st.data):
                fail('not drained', '%s: %d of %d bytes were read', what, st.pos, len(st.data))
        else:
            # a file that is skipped is not heard of again
            for n in set(skipped):
                idx = [i for i, x in enumerate(log) if x[1] == 'raise' and x[2] == 'skip']
                for i in idx:
                    if i + 1 < len(log) and log[i + 1][1] not in ('new', 'end'):
                        fail('called after the skip', '%s: the handler was called again for the file: %s', what, log[i + 1][1])
            if st.pos != len(st.data):
                fail('not drained', '%s: %d of %d bytes were read', what, st.pos, len(st.data))
        mine = [f.temporary_file_path() for f in files_of(r) if is_disk(f)]
        extra = [p for p in residue(sim) if p not in mine]
        if extra:
            fail('temporary file left', '%s: %s belongs to no uploaded file', what, extra[0])
        attempt(sim, r.close)
        if residue(sim):
            fail('temporary file left', '%s: %s is left after close()', what, residue(sim)[0])
        check_disk(sim)
        digest(sim, got, post)
        if skipped:
            sim.probe('skipped')
        if stopped:
            sim.probe('stopped')
        return bool(skipped or stopped)
