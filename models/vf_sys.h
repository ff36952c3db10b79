#ifndef VF_SYS_H
#define VF_SYS_H
#define VF_NFD 24
#define VF_FILEMAX 70000
#define VF_OUTMAX 70000
extern int vf_close_any, vf_lowest;    /* closing anything is allowed / descriptors are the lowest free ones */
extern int vf_io_err, vf_io_short;     /* calls may fail / transfers may be short */
extern int vf_io_failed;               /* bit 0: a call failed, bit 1: a short write happened */
extern int vf_fdstate[VF_NFD], vf_fdflags[VF_NFD], vf_nopen, vf_nclosed, vf_openfds;
extern const char *vf_open_path; extern int vf_open_mode;
extern char vf_file[VF_FILEMAX]; extern size_t vf_flen; extern long vf_fpos, vf_statsize, vf_statmtime; extern const char *vf_stat_path; extern int vf_nlstat;
extern char vf_out[VF_OUTMAX]; extern size_t vf_outlen; extern int vf_outfd, vf_writes; extern size_t vf_reads;
#endif
