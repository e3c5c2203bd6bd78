#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
HM='modules/core/src/c_src/hypermat.c'; SM='modules/core/src/c_src/simplemat.c'
IMG='modules/process/src/c_src/imageprocess.c'; CXX='modules/core/include/cxx_include/hypermat.hpp'; CXXS='modules/core/src/cxx_src/hypermat.cpp'
p('C01','A saved hyperspectral cube loads back exactly',
 'A cube of any size, element type, layout and wavelength list that is saved and then loaded from its image and header files comes back with the same dimensions, type, layout and every data byte, and with its wavelengths to the six decimals the header carries; loading the image by explicit size, or as a raw 2-D image, yields exactly the bytes of the file. This holds whatever the files held before, however the operating system splits the reads and writes, and whatever was left in memory or on the stack.',
 ['inputs','histories','fault_sequences','configurations'],
 'every cube (dims, the nine element types, bsq/bil/bip, wavelengths incl. long and negative values), every history of earlier saves to the same paths, every legal split of reads and writes into short transfers and every buffer size, every content of recycled memory',
 'The only save test calls the header writer once and checks nothing; the loading tests need files that are not in the tree and fail; no test varies I/O granularity, previous file content or memory content.',
 [HM,SM],[('hmsave / writehdr','%s:hmsave, writehdr'%HM),('hmread_with_hdr / readhdr / read_wavelength','%s:hmread_with_hdr'%HM),('hmread_with_size','%s:hmread_with_size'%HM),('smread','%s:smread'%SM)],
 [('image file','raw elements in layout order','<path>'),('header file','ENVI text header','<path>.hdr')],['returned cube','bytes on disk'])
p('C02','A missing, unreadable or short file is reported, never made up',
 'When an image, header, bitmap or spectrum file cannot be opened, a read of it fails part-way, or it holds less data than its dimensions call for, the load reports failure (no object, or a non-zero process exit with nothing written). It never returns an object whose content was not in the file.',
 ['fault_sequences','inputs'],
 'every loader x every read or open call that can fail (EIO, EINTR, EACCES, EMFILE ...) x every truncation length x every requested size',
 'No test opens a damaged file or makes a read fail; the failing read must land inside a particular call of a particular load.',
 [HM,SM,'modules/process/src/c_src/spectralprocess.c',CXX,CXXS],[('hmread_with_hdr, hmread_with_size, readhdr',HM),('smread, smread_bmp',SM),('read_spectrum_file','modules/process/src/c_src/spectralprocess.c'),('HyMat::open',CXX)],None,['return value / exit status of the load'])
p('C03','A save that fails is never reported as done',
 'If a save of a cube (through the C functions or the C++ class) or of a bitmap returns normally, then every byte of the image and of its header is in the files. If any open, write, flush or close during the save fails, or the disk fills up, the save ends the process with a non-zero status instead of returning.',
 ['fault_sequences','inputs'],
 'every save operation x every open/write/flush/close that can fail x every amount of free disk space x every image size and buffer size',
 'No test makes a write fail; buffered errors only surface at flush or close, at sizes and byte counts a test would have to hit exactly.',
 [HM,SM,CXX],[('hmsave, writehdr',HM),('smwrite_bmp',SM),('HyMat::save, HyMat::writeHdr',CXX)],None,['process exit status','bytes on disk'])
p('C04','A crash during a save never yields a mixed-up image afterwards',
 'If the process is killed at any point while it saves a cube or bitmap over any earlier one, or the save is ended by a disk operation that fails, a later load returns exactly the old image, or exactly the new one, or reports failure. It never returns old dimensions with new data, new dimensions with old data, a partly written image, or an incomplete wavelength list.',
 ['crash_points','histories','inputs'],
 'every point of every disk operation of a save (including the middle of a write), and every such operation failing, with or without a crash behind it, x every earlier image at the path (smaller, larger, other type or layout, none) x every new image',
 'No test kills the process during a save; the outcome depends on the exact disk operation reached and on the relation between the old and the new sizes.',
 [HM,SM],[('order of header removal, data write, close and header write in hmsave','%s:hmsave'%HM),('field order and completeness check of the header','%s:writehdr, readhdr'%HM),('short-data check on load','%s:hmread_with_hdr'%HM),('smwrite_bmp / smread_bmp',SM)],None,['result of the next load'])
p('C05','Bitmap files are standard, faithful and leave the image alone',
 'Writing an 8-bit one- or three-channel image of any size as a bitmap produces a standard 24-bit bitmap that an independent decoder reads back to the same pixels, and reading it back gives the same pixels (grey images become equal channels). Bitmaps written by other programs, with any row padding, header gap or 8-bit palette, are decoded to their true pixels or rejected.',
 ['inputs','histories','fault_sequences'],
 'every image size (odd and even heights, all paddings), every history of repeated writes and reads, every split of the file I/O, every standard bitmap variant (24-bit, 8-bit palette, pixel-data offset)',
 'The bitmap tests need files outside the tree; none checks a written file against the format or reads one with an odd height, padding or palette.',
 [SM,'modules/process/src/c_src/colortransform.c'],[('smwrite_bmp, smread_bmp',SM),('sm_gray2rgb','modules/process/src/c_src/colortransform.c')],None,['bytes of the bitmap file','returned image'])
p('C06','Corrupted files never corrupt memory, crash or hang a load',
 'Whatever bytes a header, image, bitmap or spectrum file contains (flipped, overwritten, cut, duplicated or spliced), a load stays inside its own memory, finishes in a bounded number of steps, and either reports failure or returns an object whose dimensions are positive and whose data are exactly bytes of the file.',
 ['inputs','fault_sequences'],
 'every corruption of every stored file: bit flips, byte overwrites with digits and delimiters, truncation, duplication, splicing of two files, over-long lines and numbers',
 'No test reads a malformed file; the parsers use fixed buffers and unchecked numbers that only particular bytes overflow.',
 [HM,SM,'modules/process/src/c_src/spectralprocess.c',CXX,CXXS],[('readhdr, read_wavelength, hmread_with_hdr',HM),('smread_bmp',SM),('read_spectrum_file','modules/process/src/c_src/spectralprocess.c'),('hypercv::readHdr, HyMat::open',CXXS)],None,['memory accesses of the load','return value / exit status'])
p('C07','Cube content survives any history of rearrangement operations',
 'Through any sequence of creations, copies, layout conversions, crops, band extractions and insertions, reshapes, transposes, flips, borders, splices, lossless type widenings, saves and loads, every object holds exactly the elements, dimensions, layout and wavelengths that the same sequence gives on plain arrays. Each operation changes only the object it is meant to change.',
 ['histories','inputs','fault_sequences'],
 'every history over a pool of live cubes and images, interleaved with deletions, saves, process restarts and loads, under every placement of memory blocks',
 'Tests run single operations on one 10x10x10 cube and mostly print; errors that need a particular layout, non-square size, multi-byte element, second channel or earlier operation are not reached.',
 [IMG,HM,SM,'modules/process/src/c_src/GeometricTransformation.c','modules/process/src/c_src/spectralprocess.c','modules/process/src/c_src/datatypechange.c','modules/process/src/c_src/filter.c'],
 [('convert2bsq/bil/bip, x2y conversions',IMG),('hyper_mat_get_range, reshape, band moves, splicing, transport',IMG),('hyper_mat_copy, hyper_mat_copy_to, create_hyper_mat*',HM),('create_simple_mat*, simple_mat_copy',SM),('flips','modules/process/src/c_src/GeometricTransformation.c')],None,['all live objects after every step'])
p('C08','Results never depend on leftover memory, addresses or earlier calls',
 'Every operation gives bit-identical results for the same arguments whatever values the heap and stack held before, wherever the allocator places blocks, and whichever operations ran earlier in the process. It never reads or writes outside the objects it was given or allocated.',
 ['histories','configurations','inputs'],
 'every public operation x every argument in its documented domain x every allocator placement, alignment, block reuse and recycled content x every earlier history in the process',
 'Tests run in a fresh process where memory is zero and over-reads land in slack; the same code gives other results once blocks are recycled.',
 [HM,SM,'modules/core/src/c_src/struct_2D.c','modules/process/src/c_src','modules/algorithm/src','modules/highgui/src/draw.c'],[('initialisation of every buffer and index arithmetic of every operation','modules/*/src'),('inline data placement after the object header','%s:create_simple_mat_with_data; %s:create_hyper_mat_with_data'%(SM,HM))],None,['outputs of every operation','every memory access'])
p('C09','Every operation gives back the memory and files it uses',
 'After an operation returns, the only memory still held is what its result owns, and deleting the result releases all of it exactly once; no file stays open, also when the operation reports failure. Repeating any history of create, operate and delete therefore leaves memory use unchanged.',
 ['histories','fault_sequences','inputs'],
 'every public operation x arguments x injected file errors on the failing-return paths x every placement of adopted and inline data blocks',
 'No test counts allocations or handles; leaks on rarely taken branches and ownership errors that depend on block addresses stay invisible.',
 [SM,HM,'modules/core/src/c_src/struct_2D.c','modules/process/src/c_src','modules/algorithm/src'],[('delete_simple_mat ownership rule','%s:delete_simple_mat'%SM),('delete_hyper_mat','%s:delete_hyper_mat'%HM),('delete_S_2D','modules/core/src/c_src/struct_2D.c'),('temporaries of filters, pyramids, PCA, CEM, k-means, shape match','modules/process/src/c_src, modules/algorithm/src')],None,['allocator balance','open file handles'])
p('C10','Running out of memory ends cleanly, never corrupts or lies',
 'If any single memory allocation, or all allocations from some point on, fail during an operation, then the operation reports failure (no object, or a non-zero exit) or completes with its correct result. It never touches memory it does not own, never leaves its inputs changed and never returns a wrong result.',
 ['fault_sequences','inputs'],
 'every public operation x every allocation in it (the n-th alone, the n-th and all later ones, everything above a capacity)',
 'No test makes an allocation fail; each failing call is a separate path.',
 [HM,SM,'modules/core/include/c_include/err.h','modules/core/src/c_src/struct_2D.c','modules/process/src/c_src','modules/algorithm/src',CXX],[('MALLOC_FAIL_CHECK and assertion after each allocation','modules/core/include/c_include/err.h')],None,['exit status / return value','inputs after the call'])
p('C11','Concurrent callers do not disturb each other',
 'When several threads of one process call operations at the same time, each working on its own outputs and sharing inputs only for reading, every caller gets exactly the result it would get alone, for every interleaving of their memory accesses.',
 ['schedules','inputs'],
 'every pair and triple of public operations (the same one and different ones), with separate or shared read-only inputs, under every interleaving of memory accesses and allocations',
 'No test starts a second thread; hidden shared buffers or temporary changes to a shared input show only under particular interleavings.',
 ['modules/process/src/c_src','modules/algorithm/src',HM,SM,'modules/highgui/src/draw.c'],[('absence of mutable static state and of writes to inputs','modules/*/src')],None,['results of every caller'])
p('C12','Input images and arrays are never modified, not even briefly',
 'Operations that take an image, cube, kernel, coefficient or spectrum as a source leave its data and its description (size, type, channels, layout, wavelengths) unchanged, and at no instant of the call do they store into it.',
 ['schedules','inputs'],
 'every operation with read-only arguments, observed at every store it makes, over all argument shapes, types and layouts',
 'Tests look at outputs only and only after the call; a value changed and restored during the call, or a description field overwritten by an assignment in a check, is not seen.',
 ['modules/process/src/c_src','modules/algorithm/src',SM,'modules/highgui/src/draw.c'],[('source parameters are only read','modules/*/src'),('smwrite_bmp works on a copy','%s:smwrite_bmp'%SM)],None,['every store executed during the call'])
p('C13','K-means stops and yields valid centres for any clock and random stream',
 'For every image, number of centres, threshold, clock value and random sequence, clustering returns after a bounded number of passes with every centre inside the image; with threshold zero no centre would move in a further pass unless the passes were cut off, and a centre that attracts no pixel stays where it was. The same random sequence gives the same centres.',
 ['inputs','fault_sequences','configurations'],
 'every image (also empty, single-pixel and three-channel ones), centre count, threshold, clock value and random-number sequence, including extreme and repeating sequences',
 'The one clustering test needs an image outside the tree and depends on the real clock; particular start positions are needed for empty clusters, cycles and early stops.',
 ['modules/algorithm/src/cluster.c'],[('hypercv_k_means','modules/algorithm/src/cluster.c')],None,['returned centres','number of passes'])
p('C14','The image viewer paints, reacts, closes and cleans up',
 'For every sequence of window events the viewer paints the whole image before it first waits, repaints after a drag, keeps going on unrelated events, waits instead of spinning when idle, and returns right after a quit, resize or Escape event. On every way out, including every failing window-system call, it frees its surface once and shuts the window system down, and it never alters the image.',
 ['schedules','fault_sequences','inputs'],
 'every sequence and timing of events (quit, key, motion with and without button, resize, others, idle gaps), every video mode answer, every window-system call failing, every image shape',
 'The viewer test needs a display and a person; no test delivers events or failures.',
 ['modules/highgui/src/smshow.c'],[('event loop and cleanup of smshow','modules/highgui/src/smshow.c')],None,['calls made to the window system'])
p('C15','The dynamic array behaves as a list under every history',
 'Through any history of pushes, pops, erases, initialisations and frees the dynamic array holds the same elements in the same order as a plain list, its size and emptiness agree with it and its capacity never falls below its size. This holds when every growth moves the block, when memory is recycled, and when a growth fails (the process stops, nothing is corrupted).',
 ['histories','fault_sequences','inputs'],
 'every history of operations, element type (1 to 16 bytes), every growth moving or staying, every growth failing',
 'The existing test pushes a few points once; pops and erases at the ends, re-initialisation and moved blocks are not exercised.',
 ['modules/core/include/c_include/vector.h'],[('vector_push_back, vector_grow, vector_pop_back, vector_erase, vector_init, vector_free','modules/core/include/c_include/vector.h')],None,['elements, size and capacity after every step'])
p('C16','The C++ cube class equals the C cube and a plain array model',
 'Through any history of constructions, copies, conversions, crops, releases, saves and opens, a C++ cube holds exactly the elements, dimensions, layout and wavelengths of the same history on plain arrays, whatever memory it was constructed in. Files it saves are loaded identically by the C functions and the other way round.',
 ['histories','inputs','fault_sequences','configurations'],
 'every history over a pool of C++ cubes constructed in memory with arbitrary leftover content, with saves and loads crossing between the C++ class and the C functions, and with arbitrary paths',
 'The only test of the class reads uninitialised variables and is excluded as unstable; construction over leftover memory and cross-format loading are not tested.',
 [CXX,CXXS],[('HyMat constructors, create, release',CXX),('HyMat::convertTo, range, copy',CXX),('bil2bsq ... bip2bil for HyMat',CXXS),('HyMat::open, readHdr, save, writeHdr',CXX)],None,['all live C++ cubes after every step','files on disk'])
p('C17','Failures stay contained and work resumes once they stop',
 'A save or load touches only its own files: every other file keeps its content, and a load changes no file at all, even when the operation fails or the process dies. Once faults stop, the next save to the same path succeeds and loads back exactly, whatever was left behind, and objects in memory that a failed load did not involve are unchanged.',
 ['fault_sequences','crash_points','histories'],
 'every history of saves and loads over several paths with any mix of crashes, failing calls, full disk and restarts, followed by a fault-free phase',
 'No test has more than one file, a failure, or a restart; leftovers of one failure that poison a later operation need a multi-step history.',
 [HM,SM,CXX],[('hmsave, writehdr, hmread_with_hdr, hmread_with_size',HM),('smwrite_bmp, smread_bmp',SM),('HyMat::save, open',CXX)],None,['all files after every operation','the next save and load'])
p('C18','Requests outside the domain are refused, requests inside are served',
 'When the arguments violate what an operation requires (NULL objects, sizes, element types, channels or layouts that must match, ranges, bands or positions outside the cube, unknown types, layouts, borders or modes, sizes that are not positive), the operation ends the process with a non-zero status instead of returning, changes no file and touches no memory outside its objects. Arguments inside its domain are never refused. Both hold whatever leftover content memory has.',
 ['inputs','histories','configurations'],
 'every operation of all modules x every single requirement violated x every otherwise valid argument, under any leftover memory and placement',
 'The tests pass valid arguments only: a check that is missing, reversed or reads a value that was never set shows only for the one argument it guards, and damages memory silently instead of failing.',
 [SM,HM,CXX,CXXS,'modules/process/src/c_src','modules/algorithm/src','modules/highgui/src'],[('create_hyper_mat, hmsave, hmread_with_size',HM),('create_simple_mat, smread, smwrite_bmp',SM),('HyMat constructors, create, range, convertTo',CXX),('hyper_mat_get_range, hyper_mat_splicing, simple_mat_transport',"modules/process/src/c_src/imageprocess.c"),('hypercv_dft, hypercv_idft_uchar','modules/algorithm/src/dft.c')],None,['how each request ends: return or exit status','files before and after','memory errors'])
p('C19','Cubes larger than two gigabytes are stored, cut and converted exactly',
 'Creating, copying, saving, loading, cutting a range, taking a band as an image, storing an image as a band, splicing, reshaping, changing the layout and changing the element type give the same result for a cube whose size passes 2^31 or 2^32 bytes or elements as for a small one, through the C functions and the C++ class, and touch only the elements they name. A request whose result cannot fit the memory or the address space is refused: it is never answered with an object smaller than the one described, and its source stays as it was. A save that runs out of disk or a file that is too short is reported at these sizes too.',
 ['inputs','fault_sequences','configurations'],
 'every such operation x every cube whose byte or element count lies around or beyond 2^31 and 2^32 (any of the three dimensions being the long one), every element type and layout, disk transfers that the kernel cuts at 2 GB or less, full disks, cut files and exhausted memory',
 'The tests use images of a few kilobytes; a product of sizes that is computed in 32 bits is right for all of them and wrong only beyond two gigabytes, where a test would need the memory, the disk and the minutes.',
 [HM,SM,IMG,'modules/process/src/c_src/datatypechange.c',CXX,CXXS],[('hyper_mat_get_range, hyper_mat_2_simple_mat, simple_mat_2_hyper_mat, hyper_mat_splicing, reshape_hypermat_2_simplemat, layout conversions',IMG),('element type conversions','modules/process/src/c_src/datatypechange.c'),('create_hyper_mat_with_data, hmsave, hmread_with_hdr, hmread_with_size',HM),('create_simple_mat_with_data, smread, simple_mat_copy',SM),('HyMat create, copy, save, open, range, convertTo',CXX)],None,['returned object','bytes on disk','pages of the source that changed','exit status'])
p('C20','Headers written by other programs are read exactly or refused',
 'A cube whose ENVI header was written by another program is loaded, through the C functions and the C++ class alike, as exactly the cube the header describes: fields in any order among unknown ones, fields whose name only contains a known one, comments, any spacing or tabs, either line end, layout names in any case, lists over many lines and longer than any buffer (whose text may look like fields), wavelengths in any number format, a header offset in front of the data, either byte order, and bytes behind the data. Such headers are never refused. A header offset that is negative or leaves too few bytes, an unknown byte order or element type, a header without one of its required fields or whose wavelength list does not hold one number for each band, or a call that fails on the way is reported and never answered with made-up content. What was loaded is saved as a complete pair that loads back the same.',
 ['inputs','fault_sequences','histories'],
 'every header in the ENVI grammar x every cube, offset and byte order x every failing open, read or seek, stdio buffer size and short transfer, and a following save over the same path',
 'The tests read one header the authors wrote; the order, spacing, length and unknown content of foreign headers and where a line or list meets a buffer end are unbounded.',
 [HM,CXX,CXXS],[('readhdr, read_list, read_wavelength, hmread_with_hdr, hmsave',HM),('HyMat::open',CXX),('readHdr',CXXS)],None,['returned cube or refusal','files after a following save'])
# not simulated: pure functions
why='A unit test compares a few values; the statement quantifies over all inputs.'
def n(id,title,st,files,mech): p(id,title,st,['inputs'],'every valid argument',why,files,mech)
n('N01','Matrix algebra is numerically right','Matrix products, transposes, inverses, QR factors, eigenvectors and correlation matrices equal their mathematical definition within floating-point error.',['modules/process/src/c_src/matrixprocess.c'],[('MulMatrix_*, TransMatrix_*, invert_matrix_float, matrix_QR_float','modules/process/src/c_src/matrixprocess.c')])
n('N02','Filters, gradients, thresholds and morphology follow their definitions','Every output pixel of a filter, gradient, threshold, histogram, morphology or pyramid operation equals the value its definition gives from the input pixels and border rule.',['modules/process/src/c_src/filter.c','modules/process/src/c_src/threshold.c','modules/process/src/c_src/morphology.c','modules/process/src/c_src/gradient.c'],[('hypercv_filter2D, hypercv_threshold, hypercv_corrosion, hypercv_sobel','modules/process/src/c_src')])
n('N03','Fourier transform and inverse agree with their definition','The forward and inverse transforms equal the discrete Fourier sums within floating-point error.',['modules/algorithm/src/dft.c'],[('hypercv_dft, hypercv_idft','modules/algorithm/src/dft.c')])
n('N04','Spectral measures and detectors compute their formulas','Spectral angle, Euclidean distance, target detection, principal components, shape moments, statistics and radiometric corrections equal their published formulas.',['modules/process/src/c_src/spectralprocess.c','modules/algorithm/src/cem.c','modules/algorithm/src/pca.c','modules/algorithm/src/shapematch.c','modules/process/src/c_src/RadiometricCalibration.c'],[('spectral_angle_mapper, hyper_mat_cem, hyper_mat_pca, calc_hu_moment','modules/algorithm/src')])
n('N05','Narrowing type conversions and colour transforms saturate correctly','Conversions from floating point to integer types round and clamp, and colour conversions weigh channels, exactly as documented.',['modules/process/src/c_src/datatypechange.c','modules/process/src/c_src/colortransform.c'],[('hyper_mat_float2*, sm_rgb2gray','modules/process/src/c_src')])
n('N06','Satellite orbit and attitude models are physically consistent','Orbit propagation and attitude rotation conserve the orbital elements and orthogonality they should.',['modules/satellite/src/satellite_orbit.c'],[('orbit and attitude functions','modules/satellite/src')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
