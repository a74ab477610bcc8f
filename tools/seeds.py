N = "src/neuralnet.c"; A = "npy_array/npy_array.c"; L = "npy_array/npy_array_list.c"; O = "src/optimizer.c"; AC = "src/activation.c"
MO = "src/matrix_operations.c"; SG = "src/SGD.c"; RM = "src/RMSprop.c"; AD = "src/adam.c"; AG = "src/adagrad.c"; EV = "src/evaluate.c"
PR = "src/progress.c"; ES = "src/earlystopping.c"; MC = "src/modelcheckpoint.c"; LG = "src/logger.c"; LO = "src/loss.c"; ME = "src/metrics.c"; PB = "src/neuralnet_predict_batch.c"
H = r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include <unistd.h>
#include <omp.h>
#include "neuralnet.h"
#include "neuralnet_predict_batch.h"
#include "activation.h"
#include "loss.h"
#include "metrics.h"
#include "evaluate.h"
#include "optimizer_implementations.h"
#include "earlystopping.h"
#include "modelcheckpoint.h"
#include "logger.h"
#include "simd.h"
#include "npy_array.h"
#include "npy_array_list.h"
#define FAIL(...) do { fprintf( stderr, __VA_ARGS__ ); fprintf( stderr, "\n" ); exit( 1 ); } while(0)
static int close_to( double a, double b ){ return fabs( a - b ) <= 1e-4 * (fabs( a ) + fabs( b )) + 1e-6; }
static void quiet( int x, int n, const char *f, ... ){}
static double rnd( unsigned *s ){ *s = *s * 1664525u + 1013904223u; return (*s >> 8) / 16777216.0 * 2 - 1; }
static void fill( neuralnet_t *nn, unsigned s ){
    for( int l = 0; l < nn->n_layers; l++ ){
        for( int i = 0; i < nn->layer[l].n_output; i++ ) nn->layer[l].bias[i] = rnd( &s );
        for( int i = 0; i < nn->layer[l].n_output * nn->layer[l].n_input; i++ ) nn->layer[l].weight[i] = rnd( &s );
    }
}
'''
SEEDS = {
"s01-block-writes": dict(property="C01",
  edits=[(A, "    chk = fwrite( m->data, 1, datasize, fp );\n", "    /* whole blocks first, then the remaining elements */\n    chk = 0;\n    while( datasize - chk >= BUFSIZ )\n        chk += fwrite( m->data + chk, 1, BUFSIZ, fp );\n    chk += m->elem_size * fwrite( m->data + chk, m->elem_size, (datasize - chk) / m->elem_size, fp );\n")],
  needs="an array of more than 8192 bytes whose element size does not divide 8192 (strings of 3, 5, 12 bytes)",
  breaks="the bytes of the last, partial element after the last whole block are not written",
  demo=H + r"""
int main(){
    size_t elems[] = { 1, 2, 3, 4, 5, 8, 12, 16, 7 };
    static char d[40000]; for( int i = 0; i < 40000; i++ ) d[i] = 'a' + i % 23;
    for( int e = 0; e < 9; e++ ) for( int n = 0; n < 2000; n += 333 ){
        npy_array_t a = { .data = d, .ndim = 1, .shape = { n }, .typechar = 'S', .elem_size = elems[e] };
        npy_array_save( "a.npy", &a );
        npy_array_t *b = npy_array_load( "a.npy" );
        if( !b || memcmp( b->data, d, n * elems[e] )) FAIL( "%d elements of %zu bytes: not read back", n, elems[e] );
        npy_array_free( b );
    }
    return 0;
}"""),
"s02-minor-version": dict(property="C02",
  edits=[(A, "    if(major_version != 1){", "    if(major_version != 1 || minor_version != (header_is_padded( fixed_header ) ? minor_version : 0)){"),
         (A, "static int64_t read_mapped( void *map, void *buffer, uint64_t nbytes );\n", "static int64_t read_mapped( void *map, void *buffer, uint64_t nbytes );\n\n/* The writers of numpy pad the header such that the data is aligned */\nstatic int header_is_padded( const char *fixed )\n{\n    return ((unsigned char) fixed[8] + 10) % 16 == 0;\n}\n\n")],
  needs="a version 1.1 file whose header is not padded to a multiple of 16", breaks="files of a minor version above 0 are refused when their header is not padded",
  demo=H + r"""
int main(){
    for( int minor = 0; minor < 3; minor++ ) for( int pad = 0; pad < 70; pad++ ){
        char h[256]; int n = sprintf( h, "{'descr': '<i2', 'fortran_order': False, 'shape': (2,), }%*s", pad, "" );
        h[n++] = '\n';
        FILE *f = fopen( "a.npy", "wb" );
        fwrite( "\x93NUMPY\1", 1, 7, f ); fputc( minor, f ); fputc( n & 255, f ); fputc( n >> 8, f ); fwrite( h, 1, n, f ); fwrite( "abcd", 1, 4, f ); fclose( f );
        npy_array_t *a = npy_array_load( "a.npy" );
        if( !a || a->ndim != 1 || a->shape[0] != 2 || memcmp( a->data, "abcd", 4 )) FAIL( "version 1.%d, %d blanks: not read", minor, pad );
        npy_array_free( a );
    }
    return 0;
}"""),
"s03-short-header": dict(property="C03",
  edits=[(A, "    if( chk != header_length){\n", "    if( chk < header_length )\n        header_length = (uint16_t) chk;     /* the padding is not needed */\n    header[header_length] = '\\0';\n    if( !strchr( header, '}' )){\n")],
  needs="a file of an empty array that was cut within the padding of the header", breaks="a file cut within the padding of its header is accepted when the array has no data",
  demo=H + r"""
int main(){
    char d[64]; memset( d, 1, sizeof d );
    for( int n = 0; n < 3; n++ ){
        npy_array_t a = { .data = d, .ndim = 1, .shape = { n }, .typechar = 'f', .elem_size = 4 };
        npy_array_save( "a.npy", &a );
        FILE *f = fopen( "a.npy", "rb" ); static char b[4096]; size_t len = fread( b, 1, sizeof b, f ); fclose( f );
        for( size_t k = 0; k < len; k++ ){
            f = fopen( "b.npy", "wb" ); fwrite( b, 1, k, f ); fclose( f );
            if( npy_array_load( "b.npy" )) FAIL( "%d elements: accepted after %zu of %zu bytes", n, k, len );
            if( k && npy_array_mmap( "b.npy" )) FAIL( "%d elements: mapped after %zu of %zu bytes", n, k, len );
        }
    }
    return 0;
}"""),
"s04-cached-tail": dict(property="C04",
  edits=[(L, "static npy_array_list_t * _list_append( npy_array_list_t *list, npy_array_list_t *new_elem )\n{\n    if(list) {\n        npy_array_list_t *last = list;\n        while(last->next)\n            last = last->next;\n        last->next = new_elem;\n        return list;\n    }\n    new_elem->next = NULL;\n    return new_elem;",
             "static npy_array_list_t * _list_append( npy_array_list_t *list, npy_array_list_t *new_elem )\n{\n    /* Remember the end of the list last appended to, so that long lists are not walked over and over */\n    static npy_array_list_t *head = NULL, *tail = NULL;\n    if(list) {\n        npy_array_list_t *last = list == head ? tail : list;\n        while(list != head && last->next)\n            last = last->next;\n        last->next = new_elem;\n        head = list;\n        tail = new_elem;\n        return list;\n    }\n    new_elem->next = NULL;\n    head = tail = new_elem;\n    return new_elem;")],
  needs="a list built with append, freed, and another list started with prepend whose first element gets the memory of the first list's head, then append",
  breaks="the appended arrays go to the freed list's end and are lost",
  demo=H + r"""
static npy_array_t *arr( int v ){ npy_array_t *a = calloc( 1, sizeof *a ); a->data = malloc( 64 ); memcpy( a->data, &v, 4 ); a->ndim = 1; a->shape[0] = 1; a->typechar = 'i'; a->elem_size = 4; return a; }
int main(){
    for( int k = 0; k < 20; k++ ){
        npy_array_list_t *l = NULL;
        int n = 0, want[16], lo = 0, hi = 0;
        if( k % 2 ) for( int i = 0; i < 2 + k % 3; i++ ){ l = npy_array_list_append( l, arr( i ), "a%d", i ); n++; }
        else for( int i = 0; i < 4; i++ ){ l = i % 2 == 0 ? npy_array_list_prepend( l, arr( 10 + i ), "p%d", i ) : npy_array_list_append( l, arr( 10 + i ), "q%d", i ); n++; }
        if( (int) npy_array_list_length( l ) != n ) FAIL( "round %d: %d elements instead of %d", k, (int) npy_array_list_length( l ), n );
        npy_array_list_free( l );
    }
    return 0;
}"""),
"s05-name-stride": dict(property="C05",
  edits=[(N, "    for( int i = 0; i < nn->n_layers; i++ ){\n        int act_name_len =  strlen(get_activation_name( nn->layer[i].activation_func ));\n        if( act_name_len > longest_name )", "    for( int i = 0; i < nn->n_layers; i++ ){\n        int act_name_len =  strlen(get_activation_name( nn->layer[i].activation_func ));\n        if( act_name_len > longest_name || (i == nn->n_layers - 1 && act_name_len + 4 < longest_name) )")],
  needs="a network whose output activation has a name at least five characters shorter than the longest of the other layers (hard_sigmoid then softmax, exponential then linear)",
  breaks="activation names are cut when saving, so the loaded network has other activations",
  demo=H + r'''
static const char *names[] = { "linear", "relu", "tanh", "sigmoid", "softplus", "softsign", "hard_sigmoid", "exponential", "softmax" };
int main(){
    for( int i = 0; i < 9; i++ ) for( int j = 0; j < 9; j++ ) for( int k = 0; k < 9; k++ ){
        char *act[] = { (char*) names[i], (char*) names[j], (char*) names[k] };
        neuralnet_t *nn = neuralnet_create( 3, INT_ARRAY( 2, 3, 2, 1 ), act );
        fill( nn, 5 );
        remove( "n.npz" );
        neuralnet_save( nn, "n.npz" );
        neuralnet_t *b = neuralnet_load( "n.npz" );
        if( !b ) FAIL( "%s %s %s: not loaded", names[i], names[j], names[k] );
        for( int l = 0; l < 3; l++ ) if( b->layer[l].activation_func != nn->layer[l].activation_func ) FAIL( "%s %s %s: layer %d differs", names[i], names[j], names[k], l );
        neuralnet_free( nn ); neuralnet_free( b );
    }
    return 0;
}'''),
"s06-unresolved-inherits": dict(property="C06",
  edits=[(N, "            nn->layer[i].activation_func = get_activation_func( \"linear\" );\n", "            nn->layer[i].activation_func = i ? nn->layer[i-1].activation_func : get_activation_func( \"linear\" );\n")],
  needs="an activation name that cannot be resolved in a layer that is not the first", breaks="a layer with an unresolvable activation gets the activation of the layer before instead of linear",
  demo=H + r"""
int main(){
    for( int at = 0; at < 3; at++ ){
        char *acts[] = { "tanh", "relu", "sigmoid" };
        acts[at] = "nosuch";
        neuralnet_t *nn = neuralnet_create( 3, INT_ARRAY( 2, 3, 4, 2 ), acts );
        if( !nn ) FAIL( "refused" );
        for( int i = 0; i < 3; i++ )
            if( nn->layer[i].activation_func != get_activation_func( i == at ? "linear" : acts[i] )) FAIL( "layer %d with the name of layer %d unknown: %s", i, at, get_activation_name( nn->layer[i].activation_func ));
        neuralnet_free( nn );
    }
    return 0;
}"""),
"s07-unlink-before-save": dict(property="C07",
  edits=[(N, "    int n_saved = npy_array_list_save( real_filename, save );", "    remove( real_filename ); /* start from an empty archive */\n    int n_saved = npy_array_list_save( real_filename, save );")],
  needs="a save that is interrupted or fails (here: the directory becomes too full to write, a file size limit) over an existing file",
  breaks="the previous saved network is gone when the save does not complete",
  demo=H + r'''
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
int main(){
    neuralnet_t *nn = neuralnet_create( 2, INT_ARRAY( 40, 60, 20 ), STR_ARRAY( "tanh", "sigmoid" ));
    fill( nn, 1 );
    neuralnet_save( nn, "net.npz" );
    float x = nn->layer[0].weight[3];
    pid_t p = fork();
    if( !p ){
        signal( SIGXFSZ, SIG_IGN );
        struct rlimit r = { 2000, 2000 };
        setrlimit( RLIMIT_FSIZE, &r );
        nn->layer[0].weight[3] = 77;
        neuralnet_save( nn, "net.npz" );
        _exit( 0 );
    }
    int st; waitpid( p, &st, 0 );
    neuralnet_t *b = neuralnet_load( "net.npz" );
    if( !b ) FAIL( "no network left" );
    if( b->layer[0].weight[3] != x && b->layer[0].weight[3] != 77 ) FAIL( "neither the old nor the new network" );
    return 0;
}'''),
"s08-padding-at-full-register": dict(property="C08",
  edits=[(N, "        int size_w_padding = (nn->layer[i-1].n_output + floats_per_simd_register - 1) / floats_per_simd_register;\n        size_w_padding *= floats_per_simd_register;\n        activations[i+1] = activations[i] + size_w_padding;\n        assert( is_aligned( activations[i+1] ));\n    }\n    activations[nn->n_layers] = out;",
             "        /* whole registers, hidden layers take turns on two buffers */\n        int size_w_padding = (nn->layer[(i-1) & ~1].n_output + floats_per_simd_register - 1) / floats_per_simd_register;\n        size_w_padding *= floats_per_simd_register;\n        activations[i+1] = i & 1 ? activations[i] + size_w_padding : activations[i-1];\n        assert( is_aligned( activations[i+1] ));\n    }\n    activations[nn->n_layers] = out;")],
  needs="four or more layers in which the third layer is wider than the padded first hidden layer",
  breaks="activations of a wide later hidden layer overlap those of the layer that is being computed from",
  demo=H + r'''
int main(){
    int sizes[] = { 3, 5, 4, 40, 20, 3 };
    neuralnet_t *nn = neuralnet_create( 5, sizes, STR_ARRAY( "linear", "linear", "relu", "linear", "linear" ));
    fill( nn, 9 );
    float SIMD_ALIGN( in[16] ) = { 0.5, -0.25, 2 }, SIMD_ALIGN( out[16] );
    neuralnet_predict( nn, in, out );
    double a[64], b[64];
    for( int i = 0; i < 3; i++ ) a[i] = in[i];
    for( int l = 0; l < 5; l++ ){
        for( int j = 0; j < sizes[l+1]; j++ ){
            b[j] = nn->layer[l].bias[j];
            for( int i = 0; i < sizes[l]; i++ ) b[j] += a[i] * nn->layer[l].weight[i*sizes[l+1]+j];
            if( l == 2 && b[j] < 0 ) b[j] = 0;
        }
        memcpy( a, b, sizeof a );
    }
    for( int j = 0; j < 3; j++ ) if( fabs( a[j] - out[j] ) > 1e-3 * (1 + fabs( a[j] )) ) FAIL( "output %d: %g instead of %g", j, out[j], a[j] );
    return 0;
}'''),
"s09-shared-scratch": dict(property="C09",
  edits=[(N, "    float SIMD_ALIGN(workmem[ workmem_sz + (floats_per_simd_register * nn->n_layers) ]);\n    float *activations[nn->n_layers+1];\n    activations[0] = (float*) input;\n    activations[1] = workmem;\n    for( int i = 1; i < nn->n_layers-1; i++) {",
             "    static float SIMD_ALIGN(small_workmem[ 4096 ]); /* saves the stack for the usual networks */\n    float SIMD_ALIGN(large_workmem[ workmem_sz + (floats_per_simd_register * nn->n_layers) ]);\n    float *workmem = workmem_sz + (floats_per_simd_register * nn->n_layers) <= 4096 ? small_workmem : large_workmem;\n    float *activations[nn->n_layers+1];\n    activations[0] = (float*) input;\n    activations[1] = workmem;\n    for( int i = 1; i < nn->n_layers-1; i++) {")],
  needs="two threads predicting with networks that have hidden layers at the same time, one between the other's layers",
  breaks="concurrent predictions overwrite each other's hidden activations",
  demo=H + r'''
int main(){
    neuralnet_t *nn = neuralnet_create( 3, INT_ARRAY( 8, 200, 200, 4 ), STR_ARRAY( "tanh", "tanh", "linear" ));
    fill( nn, 3 );
    enum { M = 4000 };
    static float in[M*8], ref[M*4]; unsigned s = 4;
    for( int i = 0; i < M*8; i++ ) in[i] = rnd( &s );
    for( int i = 0; i < M; i++ ){ float SIMD_ALIGN( y[16] ); neuralnet_predict( nn, in + i*8, y ); memcpy( ref + i*4, y, 16 ); }
    int bad = 0;
    omp_set_num_threads( 8 );
    #pragma omp parallel for schedule(dynamic,1) reduction(+:bad)
    for( int i = 0; i < M; i++ ){ float SIMD_ALIGN( y[16] ); neuralnet_predict( nn, in + i*8, y ); bad += 0 != memcmp( ref + i*4, y, 16 ); }
    if( bad ) FAIL( "%d concurrent predictions differ", bad );
    return 0;
}'''),
"s10-negligible-inputs": dict(property="C10",
  edits=[(MO, "        const float a = x[i];\n        if( a ) {", "        const float a = x[i];\n        if( a > 1e-6f || a < -1e-6f ) {")],
  needs="an input or hidden activation that is tiny but not zero, with a large gradient or a network that scales it up", breaks="the weight gradient of tiny inputs is zero",
  demo=H + r"""
int main(){
    neuralnet_t *nn = neuralnet_create( 1, INT_ARRAY( 2, 1 ), STR_ARRAY( "linear" ));
    nn->layer[0].weight[0] = 2e6; nn->layer[0].weight[1] = 1; nn->layer[0].bias[0] = 0;
    neuralnet_set_loss( nn, "mse" );
    float SIMD_ALIGN( x[16] ) = { 5e-7, 1 }, t[1] = { -1e6 }, SIMD_ALIGN( g[16] );
    neuralnet_backpropagation( nn, x, t, g );
    double e = 2 * (2e6 * 5e-7 + 1 + 1e6);
    if( !close_to( g[1], e * 5e-7 ) || !close_to( g[2], e )) FAIL( "%g %g instead of %g %g", g[1], g[2], e * 5e-7, e );
    return 0;
}"""),
"s11-chunked-update": dict(property="C11",
  edits=[(N, "        vector_accumulate_unaligned( n_out * n_inp, nn->layer[l].weight, ptr );\n", "        const int n_weights = n_out * n_inp;\n        if( n_weights < 4096 )\n            vector_accumulate_unaligned( n_weights, nn->layer[l].weight, ptr );\n        else {\n            const int chunk = n_weights / 8;\n            #pragma omp parallel for\n            for( int c = 0; c < 8; c++ )\n                vector_accumulate_unaligned( chunk, nn->layer[l].weight + c * chunk, ptr + c * chunk );\n        }\n")],
  needs="a layer with at least 4096 weights, their number not a multiple of 8", breaks="the last weights of large layers are never updated",
  demo=H + r"""
int main(){
    neuralnet_t *nn = neuralnet_create( 2, INT_ARRAY( 3, 65, 67 ), STR_ARRAY( "tanh", "linear" ));
    fill( nn, 1 );
    int n = neuralnet_total_n_parameters( nn );
    float *a = simd_malloc( n * 4 ), *b = simd_malloc( n * 4 ), *d = simd_malloc( n * 4 );
    neuralnet_get_parameters( nn, a );
    for( int i = 0; i < n; i++ ) d[i] = 1 + i % 5;
    neuralnet_update( nn, d );
    neuralnet_get_parameters( nn, b );
    for( int i = 0; i < n; i++ ) if( b[i] != a[i] + d[i] ) FAIL( "parameter %d: %g", i, b[i] );
    return 0;
}"""),
"s12-derivative-once": dict(property="C12",
  edits=[(N, "        layer_ptr->activation_derivative = get_activation_derivative( layer_ptr->activation_func );\n    }    \n", "        if( i < nn->n_layers - 1 || nn->loss == get_loss_func( \"binary_crossentropy\" ) || nn->loss == get_loss_func( \"categorical_crossentropy\" ) || layer_ptr->activation_func != get_activation_func( \"softmax\" ))\n            layer_ptr->activation_derivative = get_activation_derivative( layer_ptr->activation_func );\n    }    \n")],
  needs="a softmax network whose loss is first categorical_crossentropy and then changed to a loss that does not match it",
  breaks="the output derivative of the earlier loss stays in force",
  demo=H + r'''
int main(){
    neuralnet_t *a = neuralnet_create( 1, INT_ARRAY( 3, 4 ), STR_ARRAY( "softmax" )), *b = neuralnet_create( 1, INT_ARRAY( 3, 4 ), STR_ARRAY( "softmax" ));
    fill( a, 2 ); fill( b, 2 );
    a->layer[0].activation_derivative = b->layer[0].activation_derivative = get_activation_derivative( get_activation_func( "softmax" ));
    neuralnet_set_loss( a, "categorical_crossentropy" );
    neuralnet_set_loss( a, "mean_squared_error" );
    neuralnet_set_loss( b, "mean_squared_error" );
    float SIMD_ALIGN( x[16] ) = { 1, -2, 0.5 }, t[4] = { 0, 1, 0, 0 }, SIMD_ALIGN( g1[32] ), SIMD_ALIGN( g2[32] );
    neuralnet_backpropagation( a, x, t, g1 ); neuralnet_backpropagation( b, x, t, g2 );
    for( int i = 0; i < 16; i++ ) if( !close_to( g1[i], g2[i] )) FAIL( "gradient %d: %g instead of %g", i, g1[i], g2[i] );
    return 0;
}'''),
"s13-target-of-position": dict(property="C13",
  edits=[(O, "const int idx = *i + b;", "const unsigned short idx = *i + b;")],
  needs="more than 65536 training samples", breaks="samples after the first 65536 of the epoch are replaced by repeated ones",
  demo=H + r'''
static int seen[70000], bad;
static void lossf( unsigned int n, const float *p, const float *t, float *l ){ int i = (int) t[0]; if( i < 0 || i >= 70000 ) bad = 1; else
    #pragma omp atomic
    seen[i]++;
    l[0] = 0; }
int main(){
    enum { M = 70000 };
    float *x = malloc( M * sizeof(float)), *y = malloc( M * sizeof(float)), r[4];
    for( int i = 0; i < M; i++ ){ x[i] = i; y[i] = i; }
    neuralnet_t *nn = neuralnet_create( 1, INT_ARRAY( 1, 1 ), STR_ARRAY( "linear" ));
    fill( nn, 1 );
    neuralnet_set_loss( nn, "mse" );
    nn->loss = lossf;
    metric_func m[] = { get_metric_func( "mse" ), NULL };
    optimizer_t *o = OPTIMIZER( SGD_new( nn, OPTIMIZER_PROPERTIES( .batchsize = 1000, .progress = NULL, .metrics = m ), SGD_PROPERTIES()));
    optimizer_run_epoch( o, M, x, y, 0, NULL, NULL, r );
    for( int i = 0; i < M; i++ ) if( seen[i] != 1 ) FAIL( "sample %d used %d times", i, seen[i] );
    return 0;
}'''),
"s14-mean-of-means": dict(property="C14",
  edits=[(O, "#pragma omp parallel\n    {\n", "    const int n_parts = (batchsize + 63) / 64;  /* Many samples are summed up in parts that are equally large */\n#pragma omp parallel\n    {\n"),
         (O, "    for ( int b = 0 ; b < batchsize; b++){", "    for ( int b = 0 ; b < (batchsize / n_parts) * n_parts; b++){")],
  needs="a batch of more than 64 samples that does not divide into equal parts", breaks="the gradient of the last samples of a large batch is left out of the mean",
  demo=H + r"""
int main(){
    static float x[100], y[100], r[4]; unsigned s = 1;
    for( int n = 1; n <= 100; n++ ){
        for( int i = 0; i < n; i++ ){ x[i] = rnd( &s ); y[i] = 3 + rnd( &s ); }
        neuralnet_t *nn = neuralnet_create( 1, INT_ARRAY( 1, 1 ), STR_ARRAY( "linear" ));
        nn->layer[0].weight[0] = 0.5; nn->layer[0].bias[0] = 0.25;
        neuralnet_set_loss( nn, "mse" );
        optimizer_t *o = OPTIMIZER( SGD_new( nn, OPTIMIZER_PROPERTIES( .batchsize = n, .progress = NULL ), SGD_PROPERTIES( .learning_rate = 1 )));
        optimizer_run_epoch( o, n, x, y, 0, NULL, NULL, r );
        double gw = 0, gb = 0;
        for( int i = 0; i < n; i++ ){ double e = 2 * (0.5 * x[i] + 0.25 - y[i]); gw += e * x[i] / n; gb += e / n; }
        if( fabs( 0.5 - gw - nn->layer[0].weight[0] ) > 1e-3 || fabs( 0.25 - gb - nn->layer[0].bias[0] ) > 1e-3 ) FAIL( "batch of %d: %g %g instead of %g %g", n, nn->layer[0].weight[0], nn->layer[0].bias[0], 0.5 - gw, 0.25 - gb );
    }
    return 0;
}"""),
"s15-decay-per-epoch": dict(property="C15",
  edits=[(SG, "        sgd->n_iterations++;\n", "        sgd->n_iterations = i < n_train_samples ? sgd->n_iterations + 1 : 0;\n")],
  needs="a decay and a second epoch", breaks="the decay's iteration counter starts over in each epoch",
  demo=H + r'''
int main(){
    float x[4] = { 1, 2, 3, 4 }, y[4] = { 2, -1, 4, 0 }, r[4];
    neuralnet_t *nn = neuralnet_create( 1, INT_ARRAY( 1, 1 ), STR_ARRAY( "linear" ));
    nn->layer[0].weight[0] = 0.5; nn->layer[0].bias[0] = 0.25;
    neuralnet_set_loss( nn, "mse" );
    optimizer_t *o = OPTIMIZER( SGD_new( nn, OPTIMIZER_PROPERTIES( .batchsize = 1, .shuffle = false, .progress = NULL ), SGD_PROPERTIES( .learning_rate = 0.01, .decay = 0.1 )));
    double w = 0.5, b = 0.25, lr = (float) 0.01; int it = 0;
    for( int e = 0; e < 4; e++ ){
        optimizer_run_epoch( o, 4, x, y, 0, NULL, NULL, r );
        for( int i = 0; i < 4; i++ ){ double g = 2 * (w * x[i] + b - y[i]); lr /= 1 + 0.1 * it++; w -= lr * g * x[i]; b -= lr * g; }
        if( !close_to( w, nn->layer[0].weight[0] ) || !close_to( b, nn->layer[0].bias[0] )) FAIL( "epoch %d: %g %g instead of %g %g", e, nn->layer[0].weight[0], nn->layer[0].bias[0], w, b );
    }
    return 0;
}'''),
"s16-adam-tail-lane": dict(property="C16",
  edits=[(AD, "        *r_ptr = (rho * *r_ptr) + (1.0f - rho) * gval * gval;", "        *r_ptr += (1.0f - rho) * (gval * gval - r[i & ~7]);"),],
  needs="a parameter that is not in a full SIMD register (n_parameters not a multiple of 8) at an index that is not the first of its group, after the first step",
  breaks="the second moment of the remaining parameters mixes with their neighbour's",
  demo=H + r'''
int main(){
    enum { NI = 10 };
    neuralnet_t *nn = neuralnet_create( 1, INT_ARRAY( NI, 1 ), STR_ARRAY( "linear" ));
    fill( nn, 8 );
    double p[NI+1], m[NI+1] = {0}, v[NI+1] = {0}; float x[4*NI], y[4], r[4]; unsigned s = 4;
    for( int i = 0; i < 4*NI; i++ ) x[i] = rnd( &s ) * (1 + i % 7); for( int i = 0; i < 4; i++ ) y[i] = rnd( &s );
    p[0] = nn->layer[0].bias[0]; for( int i = 0; i < NI; i++ ) p[i+1] = nn->layer[0].weight[i];
    neuralnet_set_loss( nn, "mse" );
    optimizer_t *o = OPTIMIZER( adam_new( nn, OPTIMIZER_PROPERTIES( .batchsize = 1, .shuffle = false, .progress = NULL ), ADAM_PROPERTIES( .learning_rate = 0.01, .weight_decay = 0 )));
    double b1 = 1, b2 = 1, B1 = 0.9f, B2 = 0.999f;
    for( int e = 0; e < 3; e++ ){
        optimizer_run_epoch( o, 4, x, y, 0, NULL, NULL, r );
        for( int k = 0; k < 4; k++ ){
            double out = p[0]; for( int i = 0; i < NI; i++ ) out += p[i+1] * x[k*NI+i];
            b1 *= B1; b2 *= B2;
            for( int i = 0; i <= NI; i++ ){
                double g = 2 * (out - y[k]) * (i ? x[k*NI+i-1] : 1);
                m[i] = B1 * m[i] + (1 - B1) * g; v[i] = B2 * v[i] + (1 - B2) * g * g;
                p[i] -= (double) 0.01f * (m[i] / (1 - b1)) / (sqrt( v[i] / (1 - b2)) + 1e-8);
            }
        }
        for( int i = 0; i <= NI; i++ ){ double q = i ? nn->layer[0].weight[i-1] : nn->layer[0].bias[0]; if( fabs( q - p[i] ) > 1e-3 * (1 + fabs( p[i] ))) FAIL( "epoch %d parameter %d: %g instead of %g", e, i, q, p[i] ); }
    }
    return 0;
}'''),
"s17-rho-computed-once": dict(property="C17",
  edits=[(RM, "        vector_saxpby( n_parameters, r, 1.0f - rmsprop->rho, g2, rmsprop->rho );", "        static float one_minus_rho = 0.0f;  /* Keep it static such that it is calculated only once */\n        if( one_minus_rho == 0.0f )\n            one_minus_rho = 1.0f - rmsprop->rho;\n        vector_saxpby( n_parameters, r, one_minus_rho, g2, rmsprop->rho );")],
  needs="two RMSprop optimizers with different rho in one process", breaks="the second optimizer averages with the first one's 1-rho",
  demo=H + r"""
static float run( float rho ){
    float x[2] = { 1, 2 }, y[2] = { 3, -4 }, r[4];
    neuralnet_t *nn = neuralnet_create( 1, INT_ARRAY( 1, 1 ), STR_ARRAY( "linear" ));
    nn->layer[0].weight[0] = 0.5; nn->layer[0].bias[0] = 0.25;
    neuralnet_set_loss( nn, "mse" );
    optimizer_t *o = OPTIMIZER( RMSprop_new( nn, OPTIMIZER_PROPERTIES( .batchsize = 1, .shuffle = false, .progress = NULL ), RMSPROP_PROPERTIES( .rho = rho )));
    optimizer_run_epoch( o, 2, x, y, 0, NULL, NULL, r );
    return nn->layer[0].weight[0];
}
int main(){
    float a = run( 0.5 ), b = run( 0.9 ), c = run( 0.5 ), e = 0.01f;
    if( a != c ) FAIL( "not repeatable" );
    /* first step of the second one: delta = -lr * g / sqrt( 0.1 g*g ) */
    float x[1] = { 1 }, y[1] = { 3 }, r[4];
    neuralnet_t *nn = neuralnet_create( 1, INT_ARRAY( 1, 1 ), STR_ARRAY( "linear" ));
    nn->layer[0].weight[0] = 0.5; nn->layer[0].bias[0] = 0.25;
    neuralnet_set_loss( nn, "mse" );
    optimizer_t *o = OPTIMIZER( RMSprop_new( nn, OPTIMIZER_PROPERTIES( .batchsize = 1, .shuffle = false, .progress = NULL ), RMSPROP_PROPERTIES( .learning_rate = 0.01, .rho = 0.9 )));
    optimizer_run_epoch( o, 1, x, y, 0, NULL, NULL, r );
    double want = 0.5 + 0.01 / sqrt( 0.1 );
    if( fabs( nn->layer[0].weight[0] - want ) > 1e-4 ) FAIL( "%g instead of %g", nn->layer[0].weight[0], want );
    return 0;
}"""),
"s18-patience-byte": dict(property="C18",
  edits=[("src/earlystopping.c", "    int   patience;\n", "    unsigned char patience;      /* keeps the struct small */\n")],
  needs="a patience of more than 255 epochs", breaks="training stops long before the patience is exceeded",
  demo=H + r"""
#include "earlystopping.h"
#include "optimizer_implementations.h"
int main(){
    neuralnet_t *nn = neuralnet_create( 1, INT_ARRAY( 1, 1 ), STR_ARRAY( "linear" ));
    neuralnet_set_loss( nn, "mean_squared_error" );
    optimizer_t *opt = OPTIMIZER( SGD_new( nn, OPTIMIZER_PROPERTIES( .progress = NULL ), SGD_PROPERTIES() ));
    int patience[] = { 3, 100, 255, 256, 300, 1000 };
    for( int k = 0; k < 6; k++ ){
        earlystopping_t *es = earlystopping_new( EARLYSTOPPING_SETTINGS( .patience = patience[k] ));
        float res[2] = { 1, 1 };
        for( int i = 0; i <= patience[k] + 1; i++ ){
            if( earlystopping_do_stop( es )) FAIL( "patience %d: stopped after %d epochs", patience[k], i );
            callback_run( CALLBACK( es ), opt, res, false );
        }
        if( !earlystopping_do_stop( es )) FAIL( "patience %d: not stopped", patience[k] );
    }
    return 0;
}"""),
"s18-flag-derived": dict(property="C18",
  edits=[(ES, "    return es ? es->early_stopping_flag : false;", "    return es ? es->epochs_since_improvement > es->patience : false;")],
  needs="training on after the flag was set, with a later improvement", breaks="the stop flag does not stay set",
  demo=H + r'''
int main(){
    neuralnet_t *nn = neuralnet_create( 1, INT_ARRAY( 1, 1 ), STR_ARRAY( "linear" ));
    fill( nn, 1 ); neuralnet_set_loss( nn, "mse" );
    optimizer_t *o = OPTIMIZER( SGD_new( nn, OPTIMIZER_PROPERTIES( .progress = NULL ), SGD_PROPERTIES()));
    callback_t *es = CALLBACK( earlystopping_new( EARLYSTOPPING_SETTINGS( .patience = 1 )));
    float sc[] = { 5, 6, 7, 1, 1 }; int want[] = { 0, 0, 1, 1, 1 };
    for( int i = 0; i < 5; i++ ){
        callback_run( es, o, sc + i, false );
        if( earlystopping_do_stop( EARLYSTOPPING( es )) != want[i] ) FAIL( "flag wrong after epoch %d", i );
    }
    return 0;
}'''),
"s19-checkpoint-metric-index": dict(property="C19",
  edits=[(MC, "        idx = validation_set_given ? n_metrics : 0;", "        idx = validation_set_given && n_metrics > 1 ? n_metrics : 0;")],
  needs="a single metric and a validation set whose score moves differently from the training score", breaks="the checkpoint follows the training score instead of the validation score",
  demo=H + r'''
int main(){
    neuralnet_t *nn = neuralnet_create( 1, INT_ARRAY( 1, 1 ), STR_ARRAY( "linear" ));
    fill( nn, 1 ); neuralnet_set_loss( nn, "mse" );
    optimizer_t *o = OPTIMIZER( SGD_new( nn, OPTIMIZER_PROPERTIES( .progress = NULL ), SGD_PROPERTIES()));
    callback_t *mc = CALLBACK( modelcheckpoint_new( MODELCHECKPOINT_SETTINGS( .filename = "cp.npz" )));
    float sc[3][2] = { { 5, 5 }, { 4, 6 }, { 6, 4 } };
    float best[] = { 0, 0, 2 };
    for( int i = 0; i < 3; i++ ){
        nn->layer[0].weight[0] = i;
        callback_run( mc, o, sc[i], true );
        neuralnet_t *b = neuralnet_load( "cp.npz" );
        if( !b || b->layer[0].weight[0] != best[i] ) FAIL( "wrong network in the checkpoint after epoch %d", i );
        neuralnet_free( b );
    }
    return 0;
}'''),
"s20-new-log-file": dict(property="C20",
  edits=[(LG, "        fp = fopen( log->filename, \"a\" );", "        fp = fopen( log->filename, epoch > 0 ? \"a\" : \"w\" ); /* the first epoch starts a new file */")],
  needs="a log file that exists but has no line of an epoch, or one created while the logger exists", breaks="what the file held before is lost",
  demo=H + r"""
int main(){
    neuralnet_t *nn = neuralnet_create( 1, INT_ARRAY( 1, 1 ), STR_ARRAY( "linear" ));
    fill( nn, 1 ); neuralnet_set_loss( nn, "mse" );
    optimizer_t *o = OPTIMIZER( SGD_new( nn, OPTIMIZER_PROPERTIES( .progress = NULL ), SGD_PROPERTIES()));
    FILE *f = fopen( "t.log", "w" ); fputs( "# run of today\n", f ); fclose( f );
    callback_t *lg = CALLBACK( logger_new( LOGGER_SETTINGS( .filename = "t.log", .no_stdout = true )));
    float v = 1;
    for( int i = 0; i < 3; i++ ) callback_run( lg, o, &v, false );
    f = fopen( "t.log", "r" ); char b[500]; int n = 0, first = 0;
    while( fgets( b, sizeof b, f )){ if( n++ == 0 ) first = !strcmp( b, "# run of today\n" ); }
    if( n != 4 || !first ) FAIL( "%d lines, first %s", n, first ? "kept" : "lost" );
    return 0;
}"""),
"s21-metrics-of-one-sample": dict(property="C21",
  edits=[(EV, "        float *res = local_results;\n        for ( int j = 0; j < n_metrics; j++ ){", "        float *res = local_results;\n        for ( int j = 0; j < (n_metrics & 7 ? n_metrics : n_metrics - 1); j++ ){")],
  needs="exactly eight (or sixteen) metrics", breaks="the last of eight metrics stays zero",
  demo=H + r'''
int main(){
    neuralnet_t *nn = neuralnet_create( 1, INT_ARRAY( 1, 1 ), STR_ARRAY( "linear" ));
    nn->layer[0].weight[0] = 1; nn->layer[0].bias[0] = 2;
    float x[3] = { 0, 1, 2 }, y[3] = { 0, 1, 2 }, r[20];
    for( int n = 1; n <= 17; n++ ){
        metric_func m[18]; for( int i = 0; i < n; i++ ) m[i] = get_metric_func( i % 2 ? "mae" : "mse" ); m[n] = NULL;
        memset( r, 0, sizeof r );
        evaluate( nn, 3, x, y, m, r );
        for( int i = 0; i < n; i++ ) if( !close_to( r[i], i % 2 ? 2 : 4 )) FAIL( "metric %d of %d is %g", i, n, r[i] );
    }
    return 0;
}'''),
"s22-accuracy-ties": dict(property="C22",
  edits=[(ME, "        if( y_pred[i] > pred_maxval ){", "        if( y_pred[i] >= pred_maxval ){")],
  needs="a prediction in which two classes have exactly the same largest value", breaks="categorical accuracy takes the last instead of the first of equal maxima for the prediction, but the first for the target",
  demo=H + r'''
int main(){
    float p[4] = { 0.1, 0.4, 0.4, 0.1 }, t[4] = { 0, 1, 0, 0 };
    float a = get_metric_func( "categorical_accuracy" )( 4, p, t );
    if( a != 1.0f ) FAIL( "accuracy of a tie is %g", a );
    float q[3] = { 0.5, 0.5, 0.5 };
    if( get_metric_func( "categorical_accuracy" )( 3, q, q ) != 1.0f ) FAIL( "a vector does not match itself" );
    return 0;
}'''),
"s23-exp-cut": dict(property="C23",
  edits=[(AC, "_PS256_CONST(exp_lo,        -88.3762626647949f);", "_PS256_CONST(exp_lo,        -8.3762626647949f);")],
  needs="softmax over at least 8 elements with differences above 8", breaks="small exponentials are cut off at exp(-8.4) in the vectorized functions",
  demo=H + r"""
int main(){
    float SIMD_ALIGN( x[32] ), SIMD_ALIGN( y[32] );
    for( int n = 1; n <= 32; n++ ) for( int k = 0; k < 30; k++ ){
        double sum = 0;
        for( int i = 0; i < n; i++ ) x[i] = y[i] = -(float) ((i * 7 + k) % 30);
        for( int i = 0; i < n; i++ ) sum += exp( x[i] );
        get_activation_func( "softmax" )( n, y );
        for( int i = 0; i < n; i++ ){ double w = exp( x[i] ) / sum; if( fabs( y[i] - w ) > 1e-3 * w ) FAIL( "softmax %d of %d is %g, not %g", i, n, y[i], w ); }
    }
    return 0;
}"""),
"s24-guess-by-prefix": dict(property="C24",
  edits=[(N, '            foreach_str( activation, "relu", "softplus" ){\n                if( streq( *activation, activation_name ) ){', '            foreach_str( activation, "relu", "soft" ){\n                if( !initialized && !strncmp( *activation, activation_name, strlen( *activation )) && !streq( "softmax", activation_name )){'),
         (N, '"sigmoid", "tanh", "softmax", "hard_sigmoid", "softsign" ){', '"sigmoid", "tanh", "softmax", "hard_sigmoid" ){')],
  needs="a softsign layer initialized without a named scheme", breaks="softsign layers get the Kaiming instead of the Xavier scheme",
  demo=H + r'''
int main(){
    neuralnet_t *nn = neuralnet_create( 1, INT_ARRAY( 200, 200 ), STR_ARRAY( "softsign" ));
    char *none[] = { "" };
    for( int seed = 1; seed < 4; seed++ ){
        srand( seed );
        neuralnet_initialize( nn, none );
        for( int i = 0; i < 40000; i++ ) if( fabs( nn->layer[0].weight[i] ) > sqrt( 6.0 / 400 ) * 1.0001 ) FAIL( "weight %d is %g", i, nn->layer[0].weight[i] );
    }
    return 0;
}'''),
"s25-header-error-leak": dict(property="C25",
  edits=[(A, "        fprintf(stderr, \"Could not read all data.\\n\");\n        free( m->data );\n        free( m );", "        fprintf(stderr, \"Could not read all data.\\n\");\n        free( m );")],
  needs="loading a file that is cut in its data", breaks="the data of an array that cannot be read completely is never freed",
  demo=H + r'''
#include <malloc.h>
int main(){
    char d[640]; memset( d, 1, sizeof d );
    npy_array_t a = { .data = d, .ndim = 1, .shape = {160}, .typechar = 'f', .elem_size = 4 };
    npy_array_save( "a.npy", &a );
    if( truncate( "a.npy", 400 )) return 2;
    npy_array_free( npy_array_load( "a.npy" ) );
    size_t before = mallinfo2().uordblks;
    for( int i = 0; i < 100; i++ ){ npy_array_t *m = npy_array_load( "a.npy" ); if( m ) FAIL( "accepted" ); }
    size_t after = mallinfo2().uordblks;
    if( after > before + 5000 ) FAIL( "%zu bytes more", after - before );
    return 0;
}'''),
"s26-derivative-of-first": dict(property="C26",
  edits=[(AC, "        if( iter->func_ptr == ptr ) return iter->deriv_ptr; ", "        if( iter->func_ptr == ptr || (iter->next && iter->next->func_ptr == ptr && iter->handle == iter->next->handle) ) return iter->deriv_ptr; ")],
  needs="two activations of one library looked up one after the other", breaks="the second activation of a library gets the derivative of the first",
  pre="gcc -shared -fPIC -O1 -o libtwo.so \"$here/two.c\" || exit 2",
  files={"two.c": r'''
void f( int n, float *a ){ for( int i = 0; i < n; i++ ) a[i] *= 2; }
void f_derivative( int n, const float *a, float *d ){ for( int i = 0; i < n; i++ ) d[i] *= 2; }
void g( int n, float *a ){ for( int i = 0; i < n; i++ ) a[i] *= 3; }
void g_derivative( int n, const float *a, float *d ){ for( int i = 0; i < n; i++ ) d[i] *= 3; }
'''},
  demo=H + r'''
int main(){
    activation_func f = get_activation_func( "f@./libtwo.so" ), g = get_activation_func( "g@./libtwo.so" );
    if( !f || !g ) FAIL( "not found" );
    float a[1] = { 1 }, d[1] = { 1 };
    get_activation_derivative( f )( 1, a, d ); if( d[0] != 2 ) FAIL( "derivative of f: %g", d[0] );
    d[0] = 1;
    get_activation_derivative( g )( 1, a, d ); if( d[0] != 3 ) FAIL( "derivative of g: %g", d[0] );
    return 0;
}'''),
"s27-integer-percent": dict(property="C27",
  edits=[(PR, "\tfloat ratio = x/(float)n;\n\tint   c     = ratio * w;\n", "\tint percent = (int)(100LL * x / n);\n\tint c       = x * w / n;\n"),
         (PR, "(int)(ratio*100));", "percent);")],
  needs="an epoch of tens of millions of samples on a terminal", breaks="the filled part of the bar overflows: it is empty (or a line too long) while the percentage is right",
  demo=H + r"""
#include <pty.h>
#include <sys/ioctl.h>
#include "progress.h"
int main(){
    int m, s; struct winsize w = { .ws_row = 24, .ws_col = 80 };
    if( openpty( &m, &s, NULL, NULL, &w )) return 2;
    if( !freopen( "/dev/null", "w", stdout )) return 2;
    dup2( s, 1 );
    int ns[] = { 100, 50000, 1000000, 60000000 };
    for( int i = 0; i < 4; i++ ){
        progress_ascii( ns[i] / 4 * 3, ns[i], "" ); fflush( stdout );
        char b[1000]; int n = read( m, b, 999 ), hashes = 0;
        for( int k = 0; k < n; k++ ) hashes += b[k] == '#';
        if( n != 81 || hashes < 53 || hashes > 55 ) FAIL( "%d of %d: %d columns, %d filled", ns[i] / 4 * 3, ns[i], n, hashes );
    }
    return 0;
}"""),
"s28-seeded-once": dict(property="C28",
  edits=[("src/optimizer.c", "        srand( time (NULL ) );\n", "        /* One seed for all optimizers of the process */\n        static bool seeded = false;\n        if ( !seeded )\n            srand( time (NULL ) );\n        seeded = true;\n")],
  needs="a shuffled training run after another one in the same process", breaks="whether an optimizer's first epoch takes its seed from the clock depends on what the process did before",
  demo=H + r"""
#include <time.h>
time_t time( time_t *t ){ if( t ) *t = 1700000000; return 1700000000; }
static void train( float *p ){
    float x[32], y[16]; unsigned s = 3; for( int i = 0; i < 32; i++ ) x[i] = rnd( &s ); for( int i = 0; i < 16; i++ ) y[i] = rnd( &s );
    neuralnet_t *nn = neuralnet_create( 2, INT_ARRAY( 2, 3, 1 ), STR_ARRAY( "tanh", "linear" ) );
    fill( nn, 9 ); neuralnet_set_loss( nn, "mean_squared_error" );
    optimizer_t *o = OPTIMIZER( SGD_new( nn, OPTIMIZER_PROPERTIES( .batchsize = 2, .shuffle = true, .progress = NULL ), SGD_PROPERTIES( .learning_rate = 0.1f )));
    float r[2];
    srand( 5 );
    for( int e = 0; e < 3; e++ ) optimizer_run_epoch( o, 16, x, y, 0, NULL, NULL, r );
    neuralnet_get_parameters( nn, p );
    optimizer_free( o ); neuralnet_free( nn );
}
int main(){
    omp_set_num_threads( 1 );
    _Alignas(64) float p[32] = { 0 }, q[32] = { 0 };
    train( p ); rand(); train( q );
    if( memcmp( p, q, sizeof p )) FAIL( "the same run, different networks" );
    return 0;
}"""),
}
