#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
DS='src/data_set.rs'; VAR='src/data_set/variable.rs'; DIM='src/data_set/dimension.rs'; ATT='src/data_set/attribute.rs'
W='src/io/file_writer.rs'; R='src/io/file_reader.rs'; IO='src/io.rs'; NM='src/name_string.rs'; DT='src/data_type.rs'; DV='src/data_vector.rs'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
H=['histories','inputs']
p('P01','Names are unique within each list of a data set',
 'At every moment the dimensions of a data set have pairwise distinct names, and so do its variables, its global attributes, and the attributes of each variable. Adding an item, or renaming one, to a name already used in the same list is refused, also while a file is being read.',
 H,'every sequence of add, rename and remove calls, every name, and every file',
 'Tests add or rename a handful of names; the claim is about every insertion and rename site, on every path, for every history and every file.',
 [DS,VAR,R],[('lookup of the name before each insertion','DataSet::add_fixed_dim, set_unlimited_dim, add_var, add_var_using_dim_refs, add_global_attr_*'),('lookup before each rename','DataSet::rename_dim, rename_var, rename_global_attr, Variable::rename_attr'),('attribute insertion','Variable::add_attr')],
 [('dims, vars, attrs','the lists of the data set','DataSet'),('attrs','attributes of a variable','Variable')],['get_dims','get_vars','get_global_attrs','get_var_attrs','FileReader::open'])
p('P02','Every stored name is a valid NetCDF-3 name',
 'A dimension, variable or attribute only ever bears a name accepted by the name-validity rule of the library: every operation that introduces or changes a name, and the reading of a file, refuses any other name. The validity rule itself accepts exactly the non-empty names of at most 256 bytes whose first character is an ASCII letter or digit, an underscore or a non-ASCII character, and whose other characters may also be the documented special ASCII characters.',
 H,'every name given to any adding or renaming operation, and every name in a file',
 'Tests try some valid and invalid names on some of the operations; the claim is about all entry points and all character strings.',
 [NM,DS,VAR,DIM,ATT],[('validity predicate','is_valid_name'),('validity check before storing','Dimension::check_dim_name, Variable::check_var_name, Attribute::check_attr_name')],
 [('name','name of a dimension, variable or attribute','Dimension, Variable, Attribute')],['is_valid_name','Dimension::name','Variable::name','Attribute::name'])
p('P03','A refused edit leaves the data set unchanged',
 'When an operation that edits a data set or one of its variables (adding, renaming or removing a dimension, variable or attribute) returns an error, the data set is exactly what it was before the call.',
 H,'every editing operation, every argument and every error it can return',
 'Tests look at the error value, rarely at the whole data set afterwards, and only for the errors they provoke.',
 [DS,VAR],[('all checks precede the first mutation','the editing methods of DataSet and Variable')],
 [('dims, unlimited_dim, vars, attrs','the data set','DataSet')],['any getter after an Err'])
p('P04','Dimensions and variables stay consistent',
 'A variable of a data set only uses dimensions defined in that data set, at most 1024 of them, never the same one twice, and the unlimited-size dimension only in first position; a dimension in use cannot be removed. A data set has at most one unlimited-size dimension, which is also one of its dimensions, and a fixed-size dimension always has a size between 1 and the documented maximum.',
 H,'every history of edits and every file',
 'Tests exercise single violations from freshly built data sets; the claim is an invariant over all histories.',
 [DS,VAR,DIM],[('dimension validity checks','Variable::new, Variable::check_dims_validity'),('in-use check','DataSet::remove_dim'),('single unlimited dimension','DataSet::set_unlimited_dim'),('size bounds','Dimension::new_fixed_size')],
 [('unlimited_dim','the unlimited-size dimension','DataSet, Variable'),('dims','dimensions','DataSet, Variable')],['get_dims','get_unlimited_dim','Variable::get_dims'])
p('P05','A successful edit changes exactly what it names',
 'A successful addition appends exactly one item, holding the given name, type, size or values and the named dimensions in the given order; a successful removal removes exactly the named item, returns it, and keeps the others in order; a successful renaming changes only that name, to the new name, and renaming an item to its own name is accepted and changes nothing. A renamed dimension is seen under its new name by every variable using it, and removing the unlimited-size dimension leaves the data set without one. An edit to which none of the documented reasons of refusal applies succeeds.',
 H,'every editing operation that succeeds, for every prior data set and argument',
 'Tests compare a few getters on small data sets; the claim covers the entire resulting data set for any prior content.',
 [DS,VAR,DIM],[('editing methods','DataSet::{add_*,set_unlimited_dim,rename_*,remove_*}, Variable::{add_attr_*,rename_attr,remove_attr}'),('shared dimensions','Rc<Dimension> held by data set and variables')],
 [('dims, unlimited_dim, vars, attrs','the data set','DataSet')],['all getters'])
p('P06','Typed attribute values are stored and returned faithfully',
 'An attribute keeps exactly the values and the data type it was created with, and every typed getter (of an attribute, a variable, a data set, or a data vector) returns them if and only if the requested type is the stored one, and nothing otherwise. The reported type, length and string form are those of the stored values.',
 ['inputs'],'every attribute, value vector, type and getter',
 'There are several dozen nearly identical typed accessors; tests cover some type pairs, a copy-paste slip in one pair stays unseen.',
 [ATT,DV,DS,VAR],[('typed vector','DataVector and its accessors'),('typed attribute constructors and getters','Attribute::new_*, Attribute::get_*, Variable::get_attr_*, DataSet::get_*_attr_*')],
 [('data','typed values','Attribute, DataVector')],['get_*_attr_*','DataVector::get_*'])
p('P07','Queries by name answer about the named item and change nothing',
 'A query by name (existence, size, type, length, count, or the item itself) answers about the item bearing exactly that name, and answers that there is none exactly when no item of that list bears it; list queries return all the items in definition order. No query modifies the data set.',
 ['inputs','histories'],'every query, name and data set',
 'Tests query data sets with one or two items, mostly the first; the claim is for any list and any position.',
 [DS,VAR,ATT,DIM],[('searches','DataSet::find_dim_from_name, find_var_from_name, find_global_attr_from_name, find_var_attr_from_name, Variable::find_attr_from_name'),('queries','has_*, get_*, num_*, dim_size, var_len, ...')],
 [],['all query methods of DataSet and Variable'])
p('P08','The written header follows the NetCDF-3 classic grammar',
 'For every data set and version the header written is: magic and version, number of records, dimension list, global attribute list, variable list, each list being either the eight-byte absent marker or its tag, its count and its entries in definition order; every name, attribute value and entry field appears in the order, width, byte order and alignment the format prescribes, with zero padding. Nothing else is written in the header.',
 ['inputs','configurations'],'every data set, every version, every name and attribute',
 'Tests compare a few whole files; the grammar must hold for any combination of list lengths, types and name lengths.',
 [W,IO],[('header emission','FileWriter::write_header, write_dims_list, write_attrs_list, write_vars_list, write_name_string'),('tags','src/io.rs')],
 [],['bytes of the file after set_def'])
p('P09','The computed header size is the size of the header written',
 'For every data set and version, the header size used to place the variables equals the number of header bytes written, the whole header is extended with zeros to the requested minimum size, the data begin is 4-byte aligned, and the first variable begins exactly where the header ends.',
 ['inputs','configurations'],'every data set, version and requested minimum header size',
 'The size computation and the emission are two separate pieces of code; tests compare them on a few data sets only.',
 [W],[('size computation','ComputedDataSetMetadata::compute_header_required_size, ComputedDataSetMetadata::new'),('emission','FileWriter::write_header')],
 [],['begin offsets in the header, position of the data'])
p('P10','No I/O failure goes unreported',
 'Every failure of an operation on the underlying file (open, seek, read, write, size query) during any call makes that call return an error, partial writes and partial reads are completed or reported, and no data accepted by a successful call remains in a user-space buffer that could fail silently.',
 ['fault_sequences','inputs'],'every file operation in every call and every way it can fail',
 'No test injects I/O faults; a full disk or a short write must be reported wherever it strikes.',
 [W,R,'src/error.rs'],[('propagation with ? and write_all/read_exact','FileWriter and FileReader methods'),('error conversion','From<std::io::Error> for WriteError and ReadError')],
 [],['return value of every FileWriter and FileReader method'])
p('P11','Writer, filler and reader agree on the place of every value',
 'The record i of a variable is always written, filled and read at the begin offset recorded for this variable plus i times the record size of the data set, where the record size is the sum of the padded per-record sizes of the record variables and a fixed-size variable has the only record 0. The begin offsets place all fixed-size variables first and then the record variables, each right after the padded size of the previous one, so that no two variables overlap.',
 ['inputs','configurations'],'every data set, variable, record index, version and header size',
 'Tests use data sets with few variables and records; the arithmetic has to agree between four separate pieces of code for any of them.',
 [W,R,VAR,DS],[('offset assignment','ComputedDataSetMetadata::new'),('positions','FileWriter::write_var_*, write_record_*, close; FileReader::read_var, read_record'),('sizes','Variable::chunk_len, chunk_size, len, num_chunks; DataSet::record_size, num_records')],
 [],['file offsets of every data write and read'])
p('P12','Invalid writes are refused before anything is written',
 'A call writing a variable or a record returns an error, without writing or moving anything in the file and without recording progress, unless the definition has been set, the variable exists in it, the value type is the type of the variable, the number of values is exactly the expected one, and the record index is in range. A valid call is never refused for these reasons.',
 ['inputs','histories'],'every typed write method, variable, type, length, record index and writer state',
 'Twelve generated methods times all wrong types, lengths and indexes; tests try a few of them and only look at the returned error.',
 [W],[('checks','write_var_* and write_record_* methods')],
 [('header_def','the definition, once set','FileWriter'),('written_records','records already written','FileWriter')],['returned error, file content'])
p('P13','Closing fills exactly what was not written',
 'Closing a writer fills every record of every variable that no successful write has provided, with the fill value and padding of its own type, and never touches a record that has been written, whatever the order, repetition or mix of whole-variable and record writes; records are remembered as written only after their values have been written. Closing without definition writes nothing.',
 ['histories'],'every history of write_var and write_record calls (successful or not) before close',
 'Tests close after complete or entirely absent writes in one order; partial and mixed histories are combinatorial.',
 [W],[('progress records','FileWriter::written_records, update_written_records'),('filling','FileWriter::close, write_chunk_nc_fill_*')],
 [('written_records','records already written per variable','FileWriter')],['file content after close'])
p('P14','Values are encoded and decoded big-endian in their own type',
 'Each of the six data types is written, filled and read with the big-endian encoding of its own width, element by element in order and without conversion, in the data part as in attribute values, and a data vector of a type is only ever filled from bytes by the decoder of this type.',
 ['inputs','configurations'],'every type, value and code path that encodes or decodes elements',
 'There are some forty encode/decode sites by type; tests use values and types that do not distinguish every slip.',
 [W,R,DV],[('encoders','write_chunk_*, write_chunk_nc_fill_*'),('decoders','FileReader::read_var, read_record, parse_typed_data_elements')],
 [],['bytes written, vectors returned'])
p('P15','Opening modes and the single definition are respected',
 'Creating a file exclusively never opens, truncates or modifies an existing file; opening for writing creates or empties the file; reading never opens a file for writing. The definition of a writer can be set once: a second successful definition is impossible, a refused one changes nothing, and a definition that fails leaves the writer undefined.',
 ['histories','inputs'],'every path and every sequence of calls on a writer or reader',
 'Tests check one sequence of calls each; failures at any moment of the definition are not tested.',
 [W,R],[('open options','FileWriter::open, FileWriter::create_new, FileReader::open'),('definition state','FileWriter::set_def, header_def')],
 [('header_def','definition','FileWriter')],['file system effects, header_is_defined, returned errors'])
p('P16','Quantities that do not fit the format are refused, never truncated',
 'No size, count or offset is silently truncated or wrapped when it is stored in a field of the file or turned into a file position: an offset that does not fit the chosen version makes the definition fail (as not possible in the classic version when it exceeds 32 bits), and a number of records or a per-record size that does not fit is stored as the format\'s indeterminate value.',
 ['inputs','configurations'],'every data set size up to the limits of the machine integers',
 'Needs multi-gigabyte data sets or adversarial dimension sizes which tests do not build.',
 [W,DS,VAR],[('checked conversions','ComputedDataSetMetadata::new, write_header, write_vars_list, write_attrs_list'),('checked positions','FileWriter::compute_position')],
 [],['set_def result, header fields'])
p('P17','The reader accepts the same header grammar the writer emits',
 'The reader parses headers by the classic grammar: the same fields in the same order, widths, tags and alignment as the writer emits them, offsets of 4 bytes in the classic version and 8 bytes in the 64-bit offset version, lists absent or tagged, and non-zero padding, unknown tags, versions, types and negative counts rejected. Every item read appears in the resulting data set with its name, type, dimensions, attributes and order.',
 ['inputs','configurations'],'every header',
 'Reader and writer are tested on a few sample files; agreement is needed for every combination of lists, types and versions.',
 [R,W],[('parsers','FileReader::parse_header and the parse_* functions')],
 [],['FileReader::open, data_set, version'])
p('P18','No file content can make the reader panic or exhaust memory',
 'Whatever the bytes of a file, opening it and reading any variable or record returns a value or an error: there is no panic, arithmetic overflow or abort, and no memory is allocated in proportion to a number found in the file before enough of the file is known to back it.',
 ['inputs'],'all byte sequences',
 'Existing tests only read well-formed sample files and a few hand-made bad headers.',
 [R,DS,VAR],[('checked and saturating arithmetic','FileReader::parse_header, read_var, read_record; Variable::chunk_len, chunk_size, len; DataSet::record_size'),('bounded allocation','FileReader::check_num_bytes, parse_* functions')],
 [],['FileReader::open, read_var*, read_record*'])
p('P19','Headers of any length are loaded completely',
 'Opening a file parses its header whatever its length: as long as the parser only lacks bytes and the file has more, more bytes are appended to those already loaded and the parsing starts again from the first byte; every other parse error is returned at once, and an incomplete header at the end of the file is an error. The loading always terminates.',
 ['inputs'],'every header length and every position where the loaded bytes end',
 'Tests read headers of a few lengths; the loop must work for any split of any header.',
 [R,'src/error.rs','src/error/parse_header_error.rs'],[('loading loop','FileReader::open'),('incomplete errors','ReadError::header_is_incomplete, ParseHeaderError, InvalidBytes')],
 [],['FileReader::open'])
p('P20','Reads do not depend on earlier operations',
 'What a read of a variable or record returns depends only on the file and the arguments: every read positions the file absolutely before reading, reads exactly the values requested, and changes neither the data set nor any other state of the reader.',
 ['histories'],'every sequence of read calls, failed ones included',
 'Tests read each variable once in a fixed order.',
 [R],[('absolute seek then exact read','FileReader::read_var, read_record')],
 [('input_file','file with its cursor','FileReader')],['read_var*, read_record*, read_all_vars'])
p('P21','Typed reads check the variable, its type and the record index',
 'A typed read succeeds only for an existing variable of exactly that type, and reading a record only for an index lower than the number of records of the variable (1 for a fixed-size variable); otherwise the corresponding error is returned. The number of values returned is the length of the variable, or of one record.',
 ['inputs'],'every typed read method, variable, type and index',
 'Twelve generated methods; tests try few wrong types and indexes.',
 [R],[('checks','read_var_*, read_record_*, read_var, read_record')],
 [],['returned values and errors'])
p('P22','An indeterminate number of records is deduced from the file size',
 'When a file does not state its number of records, the number used is the size of the file from the first record variable divided by the record size (zero without record variable), and the file is refused if this is not a whole number. A stated number of records is used as it is.',
 ['inputs'],'every file, file size and set of begin offsets',
 'One or two sample files exercise this.',
 [R],[('computation','FileReader::parse_header')],[],['FileReader::open, DataSet::num_records'])
p('P23','Format constants and code tables are those of NetCDF-3',
 'The fill values, type codes and element sizes, type names, version numbers, list tags, and limits on names, dimensions and dimension sizes are those of the format, and each conversion from a code accepts exactly the codes of the table and is the inverse of the conversion to a code.',
 ['inputs'],'every code and every type',
 'Tests check several entries; any entry could drift together with its test data.',
 [DT,'src/version.rs',IO,DS,NM],[('tables','DataType, Version, TryFrom, size_of, c_api_name, NC_FILL_*, NC_MAX_*')],[],['public constants and conversions'])
p('P24','A definition cannot change while a writer uses it',
 'From the moment a data set is given to a writer as its definition until the writer is gone, safe code cannot modify the data set, its variables or attributes, and cannot give the writer a data set that does not outlive it; internal fields of data sets, variables, attributes and dimensions are not accessible outside the library, and a closed writer or reader cannot be used.',
 ['programs'],'all safe programs using the library',
 'It is a statement about programs that must not compile.',
 [W,DS,VAR,DIM,ATT],[('borrow of the data set for the life of the writer','FileWriter<\'a>, set_def(&\'a DataSet)'),('field visibility','DataSet, Variable, Attribute, Dimension'),('close takes the writer by value','FileWriter::close, FileReader::close')],
 [],['the type checker'])
p('P25','What is written is read back equal',
 'For every data set and values that can be written, closing the file and opening it again gives an equal data set, version and equal values for every variable.',
 ['inputs','histories'],'every data set, values and history of writes',
 'The round trip is tested on a few files.',
 [W,R],[('whole pipeline','FileWriter, FileReader')],[],['FileReader after FileWriter::close'])
p('P26','Time and memory stay proportional to the data handled',
 'Opening a file, reading and writing take time and memory at most proportional to the header and the data handled.',
 ['inputs'],'every file and data set',
 'Tests use small files.',
 [R,W],[('loading loop','FileReader::open')],[],['resource usage'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
for q in P:
    assert len(q['title'])<=80,q['id']
print(len(P))
