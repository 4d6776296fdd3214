"""Files that live next to the inputs of a run."""
import os
import random

import world


def modes(cfg):
    return [(l, m, n, role) for (l, m, n), role in sorted(world.mode_table(cfg).items())]


def dirs(root, cfg):
    if cfg.get('poly'):
        return [f'{root}/POLY/modes'], f'{root}/POLY/structure', 'n_3_0'
    return [f'{root}/GYRE/ad', f'{root}/GYRE/nad'], f'{root}/MESA/profiles', 'M3.00_D2.00'


def junk(path, r):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(r.randbytes(r.randint(0, 300)))


def add(root, cfg, kind, r, c):
    gd, md, tag = dirs(root, cfg)
    poly = cfg.get('poly', False)
    ms = modes(cfg)
    have = {(l, m, n) for l, m, n, _ in ms}
    l, m, n, role = r.choice(ms)
    where = r.choice(gd)
    for x in gd + [md]:
        os.makedirs(x, exist_ok=True)

    def mode(l2, m2, n2, name=None, t=tag, real=None):
        """Another mode, as real data of another star or as garbage."""
        if name is None:
            name = world.detail_name(l2, m2, n2, t)
        p = os.path.join(where, name)
        if os.path.lexists(p):
            return
        if real or (real is None and r.random() < 0.5):
            oc = dict(cfg, star_seed=cfg['star_seed'] + 1)
            world.write_detail(p, oc, l2, m2, n2, role, where.endswith('nad'), polytropic=poly)
        else:
            junk(p, r)
    near = lambda: [(l, m, x) for x in (n + 1, n - 1, n + 10, n * 10, n // 10, n % 10, n + 100) if x >= 1 and (l, m, x) not in have]
    if kind == 'n_prefix':
        for x in {int(str(n)[:1]), int(str(n)[-1])} - {0}:
            if (l, m, x) not in have:
                mode(l, m, x)
    elif kind == 'n_longer':
        for x in (int(f'{n}{r.randint(0, 9)}'), int(f'{r.randint(1, 9)}{n}')):
            mode(l, m, x)
    elif kind == 'n_other':
        for a in r.sample(near(), 2):
            mode(*a)
    elif kind == 'l_other':
        for x in (l + 1, l + 10, l * 10 + r.randint(0, 9), 10 + l, l - 1):
            if x >= 1 and (x, m, n) not in have and abs(m) <= x:
                mode(x, m, n)
    elif kind == 'm_other':
        for x in (m + 1, m - 1, m + 10, 10 * m):
            if (l, x, n) not in have:
                mode(l, x, n)
    elif kind == 'm_sign':
        if m and (l, -m, n) not in have:
            mode(l, -m, n)
    elif kind == 'p_mode':
        mode(l, m, n, world.detail_name(l, m, n, tag).replace('g_mode', 'p_mode'))
    elif kind == 'other_star':
        t = r.choice(['M4.00_D2.00', 'M3.00_D4.00', 'M13.0_D2.00', 'M3.0_D2.00'] if not poly else ['n_1_5', 'n_3_5', 'n_3'])
        mode(l, m, n, t=t)
    elif kind == 'no_detail':
        mode(l, m, n, world.detail_name(l, m, n, tag).replace('detail', r.choice(['summary', 'det', 'modes'])))
    elif kind == 'n_minus':
        mode(l, m, n, world.detail_name(l, m, n, tag).replace('n+', r.choice(['n-', 'n', 'k+'])))
    elif kind == 'summary':
        junk(os.path.join(where, f'summary_{tag}.h5'), r)
    elif kind == 'note':
        junk(os.path.join(r.choice(gd + [md, root, os.path.dirname(where)]), r.choice(['README', 'notes.txt', '.hidden', 'core', 'x' * 200, 'é.h5'])), r)
    elif kind == 'dir':
        os.makedirs(os.path.join(where, world.detail_name(l, m, n + 50, tag)), exist_ok=True)
        os.makedirs(os.path.join(where, 'old_' + world.detail_name(l, m, n, tag)), exist_ok=True)
        junk(os.path.join(where, 'backup', world.detail_name(l, m, n, tag)), r)
    elif kind == 'dangling':
        p = os.path.join(where, 'lnk_' + world.detail_name(l, m, n, tag))
        if not os.path.lexists(p):
            os.symlink('/nonexistent/target', p)
    elif kind == 'mesa_other':
        if not poly:
            t = r.choice(['M4.00_D2.00', 'M3.00_D4.00', 'M3.0_D2.00'])
            p = os.path.join(md, f'profile_{t}.dat')
            if r.random() < 0.5:
                with open(p, 'w') as f:
                    f.write(world.mesa_text(dict(cfg, star_seed=cfg['star_seed'] + 1)))
            else:
                junk(p, r)
        else:
            world.write_poly_structure(os.path.join(md, r.choice(['poly_n_1_5.h5', 'structure_n_3.h5', 'poly_n_3_5.h5'])),
                                       dict(cfg, n_grid=cfg['n_grid'] + 4))
    elif kind == 'mesa_suffix':
        junk(os.path.join(md, f'profile_{tag}.' + r.choice(['mod', 'txt', 'datx', 'dat~', 'dat.bak', 'dat.gz', 'h5.bak', 'h5x', 'dat_old'])), r)
    elif kind == 'mesa_gyre':
        if not poly:
            junk(os.path.join(md, f'model_{tag}_{r.choice(["gyre", "GYRE"])}.dat'), r)
    elif kind == 'mesa_dir':
        os.makedirs(os.path.join(md, f'old_{tag}.dat'), exist_ok=True)
        junk(os.path.join(md, f'old_{tag}.dat', f'profile_{tag}.dat'), r)
    elif kind == 'other_inlist':
        junk(os.path.join(root, 'inlists', r.choice(['run.toml~', 'run2.toml', 'inlist.toml', 'arun.toml', 'run.dat'])), r)
    elif kind == 'alien_dir':
        for x in ('ad2', 'nad_old', 'x', 'output_rot_20'):
            junk(os.path.join(os.path.dirname(where), x, world.detail_name(l, m, n, tag)), r)
    # ---- ambiguous: a second file for one selected mode or profile
    elif kind == 'dup_mode':
        mode(l, m, n, 'second_' + world.detail_name(l, m, n, tag), real=r.random() < 0.8)
    elif kind == 'dup_tag':
        mode(l, m, n, world.detail_name(l, m, n, tag + '_Z0.014'), real=True)
    elif kind == 'dup_zero':
        mode(l, m, n, world.detail_name(l, m, n, tag).replace(f'n+{n}', f'n+0{n}'), real=True)
    elif kind == 'dup_profile':
        if poly:
            world.write_poly_structure(os.path.join(md, 'poly_2_n_3_0.h5'), cfg)
        else:
            with open(os.path.join(md, f'copy_of_profile_{tag}.dat'), 'w') as f:
                f.write(world.mesa_text(dict(cfg, star_seed=cfg['star_seed'] + r.randint(0, 1))))
    elif kind == 'dup_link':
        os.symlink(world.detail_name(l, m, n, tag), os.path.join(where, 'link_' + world.detail_name(l, m, n, tag)))
    elif kind == 'no_mode':
        p = os.path.join(where, world.detail_name(l, m, n, tag))
        if os.path.exists(p):
            os.unlink(p)
    elif kind == 'no_profile':
        for f in os.listdir(md):
            if tag in f and os.path.isfile(os.path.join(md, f)):
                os.unlink(os.path.join(md, f))
    elif kind == 'no_dir':
        p = r.choice(gd + [md])
        os.rename(p, p + '_moved')
