"""Compares a mounted view with the tree of a zoo source."""

import stat

from rv import view


def check_tree(ctx, ms, source, tag, prefix='', contents=True, without=()):
    tree, fields = source.tree, set(source.fields) - set(without)
    seen = dict(view.walk(ms, prefix or '/'))
    seen = {path[len(prefix):]: info for path, info in seen.items()}
    ctx.check_that(set(seen) == set(tree), f"{tag}:paths",
                   lambda: f"missing {sorted(set(tree) - set(seen))[:5]}, extra {sorted(set(seen) - set(tree))[:5]}")
    for path, node in tree.items():
        info = seen.get(path)
        if info is None:
            ctx.fail(f"{tag}:lookup", f"{path!r} is not listed or not found")
            continue
        ctx.count('entries_checked')
        if not ctx.equal(view.kind_of(info.mode), node.kind, f"{tag}:kind", f"type of {path!r} with mode {oct(info.mode)}"):
            continue
        if path not in source.loose:
            if 'mode' in fields and node.kind != 'sym':
                ctx.equal(oct(stat.S_IMODE(info.mode)), oct(node.mode), f"{tag}:{node.kind}:permissions", path)
            if 'mtime' in fields:
                ctx.equal(info.mtime, node.mtime, f"{tag}:{node.kind}:mtime", path)
            if 'owner' in fields:
                ctx.equal((info.uid, info.gid), (node.uid, node.gid), f"{tag}:{node.kind}:owner", path)
        if node.kind == 'sym':
            ctx.count('symlinks')
            if 'link' in fields:
                ctx.equal(info.linkname, node.link, f"{tag}:link", path)
        elif source.fmt not in ('ogg', '7z-py7zr'):  # These two keep backend data of regular files in that field.
            ctx.equal(info.linkname or '', '', f"{tag}:{node.kind}:spurious-link", path)
        if node.kind == 'file':
            ctx.equal(info.size, len(node.data), f"{tag}:size", path)
            if contents:
                data = view.read_all(ms, info)
                ctx.count('bytes_compared', len(data))
                ctx.check_that(data == node.data, f"{tag}:content", lambda: (
                    f"{path!r}: {len(data)} bytes instead of {len(node.data)}, first difference at "
                    f"{next((k for k, (a, b) in enumerate(zip(data, node.data)) if a != b), 'end')}"))
