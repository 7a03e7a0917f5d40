N = 'Exploration: seeded generated workloads of bounded size under monitors; '
TECH = {
 'C01': ('runtime monitors with an independent tree model over generated files and hierarchies',
         N + 'trees of 1 to about 3000 records per family, 2 to 5 levels.'),
 'C02': ('runtime monitors with an independent family model over random selections',
         N + 'requests at every level with repeats, unknown and missing IDs.'),
 'C03': ('runtime monitors evaluating every filter criterion directly on the source records',
         N + 'all criteria singly and combined, limits placed on actual values.'),
 'C04': ('fault injection into files (records removed, links rewired) with closed-tree monitors',
         N + 'ten kinds of damage, combined, including whole levels missing.'),
 'C05': ('runtime monitors comparing opened values with values decoded from the raw integers',
         N + 'zero energies, overflowed areas, both area units, all option combinations.'),
 'C06': ('runtime monitors against an independent vector line-of-sight model',
         N + 'visible points up to the limb, any satellite longitude, all input kinds.'),
 'C07': ('runtime monitors on positions of opened files against the ellipsoid in force',
         N + 'product times clustered on the change of ellipsoid.'),
 'C08': ('conservation monitors: table entries against direct aggregation of member events',
         N + 'crowded and sparse files, several steps and windows, empty selections.'),
 'C09': ('runtime monitors relating location IDs to cells built by construction',
         N + 'windows with partial last columns, all integer widths that fit.'),
 'C10': ('runtime monitors against exact polygon overlap from an independent geometry library',
         N + 'convex, concave and sliver polygons on regular and irregular meshes.'),
 'C11': ('runtime monitors with brute-force overlap and distance oracles',
         N + 'regular and irregular meshes, boxes inside, across and beyond the mesh.'),
 'C12': ('conservation monitors over the shard table against independent geometry',
         N + 'sliced footprints on regular and irregular meshes.'),
 'C13': ('conservation monitors over the per-cell table against an independent recomputation',
         N + 'generated files on regular target grids of several spacings.'),
 'C14': ('runtime monitors on accumulators fed random batch histories, against a reference model',
         N + 'random histories of batches, duplicates, values outside the grid.'),
 'C15': ('end-to-end runs of the gridding pipeline compared with an independent recomputation',
         N + 'the absent lmatools package is replaced by a stand-in with its documented behaviour.'),
 'C16': ('runtime monitors reading back written image files cell by cell',
         N + 'random grids, trims, frames and output templates.'),
 'C17': ('snapshot monitors on source arrays and repeat-run comparison of written files',
         N + 'random grids with values around the packing limits.'),
 'C18': ('conservation monitors over bins against direct aggregation of the frames',
         N + 'random series, bin widths, intervals and gaps.'),
 'C19': ('runtime monitors comparing the opened series with each file',
         N + 'the absent dask package is replaced by eager opening.'),
 'C20': ('runtime monitors against independent bilinear interpolation',
         N + 'nodes, interior, edges and outside of the tables.'),
 'C21': ('round-trip monitors over generated text products',
         N + 'all record kinds, noise lines, written and reopened.'),
 'C22': ('round-trip monitors over generated names and instants',
         N + 'all years 2000 to 2099, leap days, year ends.'),
 'C23': ('runtime monitors recording the tiles requested from the gridder',
         N + 'all sizes and spacings offered, 1 to 6 subdivisions.'),
 'C24': ('history monitors: random query sequences against fresh opens, with state snapshots',
         N + 'sequences of up to 10 queries.'),
 'C25': ('runtime monitors with a brute-force nearest-pixel oracle and save/load round trips',
         N + 'masked and unmasked arrays, real and generated tables.'),
 'C26': ('runtime monitors against the union from an independent geometry library',
         N + 'up to 30 polygons, overlapping, nested, touching.'),
 'C27': ('runtime monitors comparing point tables with the records of the source',
         N + 'all table levels, filters and chunk sizes.'),
 'C28': ('runtime monitors comparing decoded values with the raw unsigned integers',
         N + 'full range of stored integers, pruned and intact files.'),
 'C29': ('runtime monitors on stored and reopened metadata against given coordinates',
         N + 'all scenes and resolutions, spans around the one percent limit.'),
 'C30': ('runtime monitors comparing parallel results with serial ones under varied schedules',
         N + '1 to 8 workers, uneven task times, injected failures.'),
 'C31': ('fault injection into file metadata and hierarchy descriptions, with refusal monitors',
         N + 'every combination of levels in other units, surplus and missing links.'),
 'C32': ('differential monitors over ways of opening, with snapshots of the source before and after',
         N + 'files with whole and damaged trees, opened up to four ways and twice each.'),
 'C33': ('monitors reading the marks of finished figures, against the records of the flash',
         N + 'files of up to 40 flashes, figures drawn without a display.'),
 'C34': ('monitors reading images, labels and axes of finished figures, against the gridded values',
         N + 'up to six fields and four times, map lines replaced by none.'),
 'C35': ('runtime monitors comparing every window with a direct selection of records',
         N + 'one to three files, up to 24 windows, up to three polygons.'),
 'C36': ('runtime monitors comparing rows with the pieces they were made from',
         N + 'up to four pieces per record on average, three levels at once.'),
 'C37': ('monitors on files written by the command in a process of its own, against direct sums and a reference image',
         N + 'grids of up to 500 by 300 cells, up to three files.'),
 'C38': ('monitors reading the labels of written and reopened images, against the grid they were made on',
         N + 'seven cell sizes in both directions, seven frame lengths, packed and not.'),
 'C39': ('monitors comparing every group with the rows of the hierarchy it was made from',
         N + 'up to five levels, childless parents, damaged files.'),
 'C40': ('monitors comparing the reported names with the files on disk and their contents',
         N + 'one or four tiles, up to three frames, three path templates.'),
 'C41': ('monitors comparing every field handed to the writer with counts made directly from the files',
         N + 'up to three files and four frames, longitude/latitude grids and tiles of the fixed grid.'),
 'C42': ('monitors comparing the reported bounds with the positions written to the file',
         N + 'up to 30 flashes, whole and damaged files, all options.'),
 'C43': ('a handler on the root logger recording warnings while files are opened, judged by the kind of file',
         N + 'up to 12 flashes, whole, damaged and empty files, all options.'),
 'C44': ('monitors comparing every line and quadrilateral with the corners it was made from',
         N + 'meshes of up to 7 by 7 cells.'),
 'C45': ('monitors comparing the pieces of every record with exact overlaps of the union of its footprints',
         N + 'files of up to nine flashes, five spacings of the fixed grid and four in degrees.'),
}
